"""C14 batching, C15 tracing, C16 differentiation, C17 purity, C18 precision."""
from fractions import Fraction
import math
import random

import numpy as np

import nodes as N
import decide
import ival
import kink
import spec
from spec import FUNCS, BYNAME, sym, C
from decide import Domain, POS, REAL
from framework import Skip
from values import Arr, AbsRaise, Incomplete, Raised, LDict, Tok, Func, Ext, ExtCall, flatten


# ------------------------------------------------------------------ C14
def _combos(fn, thorough, sizes=()):
    """dicts: argument name -> leading shape"""
    k, names = fn.batch, [a.name for a in fn.args]
    out = []

    def put(**kw):
        if kw and kw not in out:
            out.append(kw)

    def mix(l, shapes):
        return {n: s for n, s in zip(l, shapes) if s is not None}

    def cyc(l, shapes, off=0):
        return {n: shapes[(i + off) % len(shapes)] for i, n in enumerate(l)}
    if k in ("elem", "coe"):
        l = names
    elif k == "chi":
        l = [n for n in names if n not in ("alpha",)]
    elif k in ("vec", "vec1", "vecmu", "vec1mu", "vecscal"):
        l = [a.name for a in fn.args if a.shape]
    elif k == "mat":
        l = names
    else:
        return out
    mu = "mu" in names and k in ("vecmu", "vec1mu", "vecscal")
    for n in l:
        put(**{n: (2,)})
    put(**{n: (2,) for n in l})
    put(**{n: (3,) for n in l})
    put(**{n: (1,) for n in l})
    put(**cyc(l, [(2, 1), (3,)]))
    put(**cyc(l, [(2, 1), (3,)], 1))
    if len(l) > 1:
        for n in l:
            put(**{m: (2,) for m in l if m != n})
    put(**cyc(l, [(2, 2), (2,)]))
    put(**cyc(l, [(2, 1), (2,)]))  # equal sizes, different shapes
    put(**cyc(l, [(2,), (2, 1)]))
    put(**cyc(l, [(1, 2), (2, 1)]))
    put(**cyc(l, [(), (2,)]))
    put(**cyc(l, [(2,), (1, 2)]))
    put(**cyc(l, [(1, 2), (2,)]))
    put(**cyc(l, [(1,), (1, 1)]))
    put(**cyc(l, [(1, 1), (1,)]))
    put(**{n: (2, 1, 2) for n in l})
    put(**{n: (1, 2, 1, 1) for n in l})
    if mu:
        for b in ((2,), (3,)):
            put(**dict({n: b for n in l}, mu=b + (1,)))
        put(**dict(mu=(2, 1)))
        put(**dict({l[0]: (2,)}, mu=(2, 1)))
        put(**dict(cyc(l, [(2, 1), (3,)]), mu=(2, 1, 1)))
    for k in sizes:
        put(**{n: (k,) for n in l})
    if thorough:
        put(**{n: (2, 3) for n in l})
        put(**{n: (3, 3) for n in l})
        put(**{n: (6,) for n in l})
        put(**{n: (1, 1, 2, 1, 2) for n in l})
        put(**cyc(l, [(3, 1, 1), (2, 1), (3,)]))
        put(**cyc(l, [(3, 1, 1), (2, 1), (3,)], 1))
    return out


def _batch_shape(fn, b):
    r = []
    for a in fn.args:
        if a.name in b:
            s = tuple(b[a.name])
            r.append(s[:-1] if a.name == "mu" and fn.batch in ("vecmu", "vec1mu", "vecscal") else s)
    return np.broadcast_shapes(*r) if r else ()


def _pick(fn, b, idx):
    """symbol renaming: unbatched argument symbols -> those of batch element idx"""
    m = {}
    for a in fn.args:
        s = tuple(b.get(a.name, ()))
        if a.name == "mu" and fn.batch in ("vecmu", "vec1mu", "vecscal") and s:
            lead, tail = s[:-1], (0,)
        else:
            lead, tail = s, ()
        i = idx[len(idx) - len(lead):] if lead else ()
        i = tuple(0 if d == 1 else k for k, d in zip(i, lead))
        for v in np.ndindex(*a.shape):
            old = a.name + "".join("_%d" % x for x in v)
            new = a.name + "".join("_%d" % x for x in i + tail + v)
            if old != new:
                m[sym(old)] = sym(new)
    return m


def _named(n, a):
    return n == a.name or n.startswith(a.name + "_") and n[len(a.name) + 1:].replace("_", "").isdigit()


def c14(run):
    fns = [f for f in FUNCS if f.batch]
    shapes = 0

    def build(fn, loc):
        nonlocal shapes
        base = run.outs(fn)
        for b in _combos(fn, run.thorough, run.limits()):
            shapes += 1
            tag = "%s(%s)" % (fn.name, ", ".join("%s:%s" % (k, "x".join(map(str, v))) for k, v in sorted(b.items())))

            def one(b=b, tag=tag):
                got = run.outs(fn, batch=b)
                B = tuple(_batch_shape(fn, b))
                if len(got) != len(base):
                    run.fact(tag, loc, "batched call returns the same outputs", False, dict(got=len(got), want=len(base)))
                    return
                for k, (g, u) in enumerate(zip(got, base)):
                    lab = tag + (" output %d" % k if len(base) > 1 else "")
                    dep = set()
                    for x in u.reshape(-1):
                        dep |= N.deps(x)
                    bd = {a.name: b[a.name] for a in fn.args if a.name in b and any(_named(s, a) for s in dep)}
                    S = tuple(u.shape)
                    full, need = B + S, tuple(_batch_shape(fn, bd)) + S
                    # ones in the trailing dimension of a scalar-like result are part of the unbatched shape
                    try:
                        ok = np.broadcast_shapes(g.shape, full) == full and np.broadcast_shapes(need, g.shape) == g.shape and g.ndim >= len(S)
                    except ValueError:
                        ok = False
                    run.fact(lab + " shape", loc, "batched result has the broadcast batch shape", bool(ok), dict(got=str(g.shape), want=str(full)), "shape inference")
                    if not ok:
                        continue
                    gb = np.broadcast_to(g, full)
                    for idx in np.ndindex(*B):
                        m = _pick(fn, b, idx)
                        memo = {}
                        for v in np.ndindex(*S):
                            want = N.subst(u[v], m, memo)
                            have = gb[idx + v]
                            nm = lab + "[%s]" % ",".join(map(str, idx + v))
                            if have is want:
                                run.fact(nm, loc, "batch element equals the function of its own elements", True, how="identical value graphs")
                            else:
                                run.eq(nm, loc, have, want, spec.domain_of(fn, b), rule="batch element equals the function of its own elements")
            run.guard(tag, loc, one)
    run.each(fns, build)

    # time array of the analytic propagator
    fn = BYNAME["kepler"]

    def kep(loc):
        one = run.outs(fn, given={"ts": spec.symarr("ts", (1,))})
        for n in [2, 3] + [k for k in run.limits() if k > 3]:
            got = run.outs(fn, given={"ts": spec.symarr("ts", (n,))})
            for k, (g, u) in enumerate(zip(got, one)):
                ok = g.shape == (n, 3) and u.shape == (1, 3)
                run.fact("kepler(ts:%d) output %d shape" % (n, k), loc, "one state per requested time", bool(ok), dict(got=str(g.shape)), "shape inference")
                if not ok:
                    continue
                for i in range(n):
                    for j in range(3):
                        want = N.subst(u[0, j], {sym("ts_0"): sym("ts_%d" % i)})
                        nm = "kepler(ts:%d) output %d[%d,%d]" % (n, k, i, j)
                        if g[i, j] is want:
                            run.fact(nm, loc, "each time is propagated independently", True, how="identical value graphs")
                        else:
                            d = spec.domain_of(fn)
                            for t in range(n):
                                d.dom["ts_%d" % t] = REAL
                            run.eq(nm, loc, g[i, j], want, d, rule="each time is propagated independently")
    loc = run.where(run.value(fn.path))
    run.guard("kepler", loc, lambda: kep(loc))
    run.extra["batch_shapes"] = shapes
    run.extra["explanation"] = "shape inference and value graphs over batch shapes (each argument alone, all but one, all alike, crossed dimensions, singleton); every element compared with the unbatched graph under renaming"


# ------------------------------------------------------------------ enumeration of calls
COWELL = {
    "cowell_method": ["orbdyn", "x0", "t1", "saveat", "dt0", "max_steps", "solver", "stepsize_controller"],
    "fixed_steps": ["orbdyn", "x0", "t1", "dt", "max_steps", "solver"],
    "adaptive_steps": ["orbdyn", "x0", "t1", "max_steps", "solver", "stepsize_controller"],
    "custom_steps": ["orbdyn", "x0", "t1", "ts", "solver", "stepsize_controller"],
    "to_final": ["orbdyn", "x0", "t1", "solver", "stepsize_controller"],
}
REQUIRED = {"cowell_method": 4, "fixed_steps": 4, "adaptive_steps": 3, "custom_steps": 4, "to_final": 3}


def orbdyn(run, event="tok", org="arg", args=None):
    """an OrbDynx built by the repository's own class"""
    cls = run.value("astrodynx.prop.OrbDynx")
    d = LDict((k, spec.symarr(k, (), org)) for k in ("mu", "J2"))
    d.origin = org
    if args is not None:
        d = args[0]
    kw = {"terms": Tok("terms"), "args": d}
    if event != "default":
        kw["event"] = None if event is None else Tok("event")
    v = run.I.call(cls, [], kw)
    try:
        v.origin = org
    except AttributeError:
        pass
    return v, d


def cowell_args(run, name, od):
    vals = {"orbdyn": od, "x0": spec.symarr("x0", (6,)), "t1": spec.symarr("t1"), "saveat": Tok("saveat"), "dt0": spec.symarr("dt0"), "dt": spec.symarr("dt"),
            "ts": spec.symarr("ts", (2,)), "max_steps": Tok("max_steps"), "solver": Tok("solver"), "stepsize_controller": Tok("controller")}
    return [vals[k] for k in COWELL[name]]


BATCHES = {1: (2,), 2: (2, 2), 3: (2, 1, 2)}


def batch_of(fn, k):
    """argument name -> leading shape of rank k"""
    b = {a.name: BATCHES[k] for a in fn.args if not (fn.batch == "chi" and a.name == "alpha")}
    if fn.batch in ("vecmu", "vec1mu", "vecscal"):
        b["mu"] = BATCHES[k] + (1,)
    return b


def dom_of(fn, lab):
    if "batched" not in lab:
        return spec.domain_of(fn)
    k = int(lab.split("rank ")[1][:1]) if "rank " in lab else 1
    return spec.domain_of(fn, batch_of(fn, k))


def calls(run, cowell=True, numpy=False):
    """(label, location, thunk) of every public call the analysis follows; thunk() -> list of (value, paths)"""
    out = []
    for fn in FUNCS:
        f = run.value(fn.path)
        loc = run.where(f)

        def plain(fn=fn):
            return run.graph(fn)
        out.append((fn.name, loc, fn, plain))
        if fn.batch:
            for k in (1, 2, 3):
                b = batch_of(fn, k)

                def batched(fn=fn, b=b):
                    return run.graph(fn, batch=b)
                out.append(("%s (batched%s)" % (fn.name, " rank %d" % k if k > 1 else ""), loc, fn, batched))
        if fn.name == "kepler":
            def scalar(fn=fn):
                return run.graph(fn, given={"ts": spec.symarr("ts")})
            out.append((fn.name + " (scalar time)", loc, fn, scalar))
            for n in [1] + [k for k in run.limits(hi=40) if k not in (1, 2)][:3]:
                def lengths(fn=fn, n=n):
                    return run.graph(fn, given={"ts": spec.symarr("ts", (n,))})
                out.append(("%s (%d times)" % (fn.name, n), loc, fn, lengths))
        if numpy:
            for kind in ("npfloat", "pyfloat"):
                def host(fn=fn, kind=kind):
                    return run.graph(fn, given={a.name: _repr(spec.arg_value(a), kind) for a in fn.args})
                out.append(("%s (%s)" % (fn.name, REPRS[kind]), loc, fn, host))
            for a in fn.args:
                if isinstance(a.role, tuple) and a.role[0] == "dict":
                    def shared(fn=fn, a=a):
                        from checks_formula import words
                        keys = list(dict.fromkeys(["mu", "J2", "J3", "J4", "R_eq", "rmin", "extra"] + words(run)))
                        d = LDict((k, spec.symarr(k, (), "arg")) for k in keys)
                        d.origin = "arg"
                        return run.graph(fn, given={a.name: d})
                    out.append((fn.name + " (dictionary shared with other models)", loc, fn, shared))
        last = fn.args[-1]
        k = {"max_iter": 2}.get(last.name, 1 if last.name in ("mu", "args") else 0)
        if k:
            def short(fn=fn, k=k):
                return run.graph(fn, nargs=len(fn.args) - k)
            out.append((fn.name + " (defaults)", loc, fn, short))
    if cowell:
        for name in COWELL:
            f = run.value("astrodynx.prop." + name)
            loc = run.where(f)
            for ev in ("tok", None, "default"):
                for n in (None, REQUIRED[name]):
                    def cow(name=name, f=f, ev=ev, n=n):
                        od, _ = orbdyn(run, ev)
                        return run.call(f, cowell_args(run, name, od)[:n])
                    out.append(("%s (event %s%s)" % (name, ev, ", defaults" if n else ""), loc, None, cow))
    return out


def effects(run, kinds, rule, cowell=True, only=None, imports=False, strict=False):
    """one obligation per public call: no event of the given kinds"""
    I = run.I
    if imports:
        load_all(run)
        ev = [e for e in I.events if e.kind in kinds]
        run.fact("import astrodynx", "src/astrodynx/__init__.py", rule, not ev, [repr(e) for e in ev], "effect analysis")
    for lab, loc, fn, thunk in calls(run, cowell, "mutation" in kinds):
        if only and not only(fn):
            continue

        def one():
            I.reset_events()
            run.cache.clear()
            bad = None
            try:
                v, paths = thunk()
            except Incomplete as e:
                bad = e
            ev = [e for e in I.events if e.kind in kinds]
            if ev:
                run.fact(lab, "%s:%s %s" % (ev[0].file, ev[0].line, ev[0].func), rule, False,
                         dict(events=[repr(e) for e in ev], call_path=ev[0].chain), "effect analysis")
            elif bad is not None:
                raise bad
            elif fn is None and "io" in kinds and noisy(paths):
                c = noisy(paths)
                run.fact(lab, c.loc or loc, rule, False, dict(call=repr(c)[:200], effect="progress meter writes output"), "effect analysis")
            elif isinstance(v, Raised):
                if strict:
                    raise v.e
                run.fact(lab, loc, rule, None, dict(raises=str(v.e)), "effect analysis")
            else:
                run.fact(lab, loc, rule, True, how="effect analysis")
        run.guard(lab, loc, one)
    I.reset_events()


def noisy(paths):
    """a solve that reports progress to the terminal"""
    for p in paths:
        for c in p[2]:
            m = c.kwargs.get("progress_meter")
            if m is not None and not (isinstance(m, ExtCall) and m.path.endswith("NoProgressMeter")):
                return c
    return None


def load_all(run):
    """interpret every module of the package"""
    import os
    import framework
    root = os.path.join(framework.SRC, "astrodynx")
    run.I.reset_events()
    run.module("astrodynx")
    n = 0
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".py") or f in ("_version.py", "__main__.py"):
                continue
            rel = os.path.relpath(os.path.join(d, f), framework.SRC)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[:-9]
            try:
                run.module(rel)
                n += 1
            except Incomplete as e:
                run.fact("import " + rel, rel, "construct understood by the analysis", None, dict(reason=str(e)))
    run.extra["modules"] = n


# ------------------------------------------------------------------ C27
def _repr(v, kind):
    """v in another representation"""
    if isinstance(v, dict):
        d = LDict((k, _repr(x, kind)) for k, x in v.items())
        d.origin = v.origin
        return d
    if v.dt == "i" or (kind.startswith("py") and v.shape):
        return v
    dt = "i" if kind.endswith("int") else "f"
    if kind.startswith("np"):
        return Arr(v.a, dt, True, False, True, "arg")
    if kind.startswith("py"):
        return Arr(v.a, dt, True, True, False, "py")
    return Arr(v.a, dt, False, False, False, "arg")


REPRS = {"int": "JAX integers", "npfloat": "NumPy floats", "npint": "NumPy integers", "pyfloat": "Python floats", "pyint": "Python integers"}


def host_failure(o, l, r, path, base, dom, rng):
    """a point of the domain at which arithmetic between Python numbers leaves the reals or fails where arrays give a number"""
    if o == "Pow":
        if r.op != "const":
            return None
        kinds = (["complex"] if r.attr.denominator != 1 else []) + (["zero"] if r.attr < 0 else [])
        d = l
    else:
        kinds, d = ["zero"], r
    if not kinds or d.op in ("const", "pi"):
        return None
    roots = [d] + [c for c, _ in path] + list(dom.constraints)
    syms = sorted(set().union(*(N.deps(x) for x in roots + base)))
    loops = any(x.op in ("loop", "opq") for b in base for x in N.walk([b]))
    for p in decide.structured(roots + base, dom, syms, 120, rng):
        e = ival.Eval(p)
        if any(e(c) is not v for c, v in path) or any(e(c) is not True for c in dom.constraints):
            continue
        v = e(d)
        w = ival.iv(v)
        if "complex" in kinds and isinstance(w, tuple) and w[1] < 0:
            what = "a negative Python number to a fractional power is complex"
        elif "zero" in kinds and isinstance(v, Fraction) and v == 0:
            vals = [ival.iv(e(b)) for b in base]
            if not all(isinstance(x, (tuple, bool)) or loops and x is ival.UNK for x in vals):
                continue
            what = "division of Python numbers by zero fails"
        else:
            continue
        return dict(effect=what, construct=N.show(d, 4), point={k: str(x) for k, x in p.items()})
    return None


def c27(run):
    rule = "same value graph whatever the representation of the arguments"
    n = 0

    def build(fn, loc):
        nonlocal n
        base = run.outs(fn)
        modes = [(k, [a.name for a in fn.args]) for k in REPRS]
        for a in fn.args:
            if a.dom.kind != "int" and len(fn.args) > 1:
                modes += [("int", [a.name])]
                if not a.shape:
                    modes += [("pyint", [a.name])]
                if run.thorough:
                    modes += [("npint", [a.name]), ("int", [b.name for b in fn.args if b is not a]), ("pyint", [b.name for b in fn.args if b is not a])]
        for kind, names in modes:
            n += 1
            tag = "%s(%s: %s)" % (fn.name, "all arguments" if len(names) == len(fn.args) else ", ".join(names), REPRS[kind])

            def one(kind=kind, names=names, tag=tag):
                giv = {a.name: _repr(spec.arg_value(a), kind) for a in fn.args if a.name in names}
                run.I.hostops.clear()
                got = run.outs(fn, given=giv)
                ops = {(o, l.id, r.id, p): (o, l, r, p, at) for o, l, r, at, p in run.I.hostops}
                rng = random.Random(run.seed + len(tag))
                flat = [y for b in base for y in b.reshape(-1)]
                for o, l, r, p, at in ops.values():
                    bad = host_failure(o, l, r, p, flat, spec.domain_of(fn), rng)
                    run.fact(tag + " arithmetic between Python numbers", at, "stays within the real numbers wherever the float call gives a number", bad is None, bad or {}, "exact evaluation at points of the domain" if bad else "no failing point")
                if len(got) != len(base):
                    run.fact(tag, loc, rule, False, dict(got=len(got), want=len(base)))
                    return
                for k, (g, u) in enumerate(zip(got, base)):
                    lab = tag + (" output %d" % k if len(base) > 1 else "")
                    if g.shape != u.shape:
                        run.fact(lab, loc, rule, False, dict(got=str(g.shape), want=str(u.shape)), "shape inference")
                    elif all(x is y for x, y in zip(g.reshape(-1), u.reshape(-1))):
                        run.fact(lab, loc, rule, True, how="identical value graphs")
                    else:
                        run.arreq(lab, loc, g, u, spec.domain_of(fn), rule=rule)
            run.guard(tag, loc, one)
    run.each(FUNCS, build)
    run.extra["argument_representations"] = n
    run.extra["explanation"] = "every public function is re-interpreted with its arguments typed as JAX integers, NumPy arrays and Python scalars (all together and one at a time); element-type inference follows promotion, truncating stores and branch-type agreement; the value graphs must equal those of the float call"


# ------------------------------------------------------------------ C15
def c15(run):
    effects(run, {"leak"}, "no argument-dependent value becomes a Python number, bool, NumPy array, branch condition or shape", strict=True)
    run.extra["explanation"] = "taint analysis: every value computed from an argument is a would-be tracer; uses that need its concrete value are reported with the call chain"


# ------------------------------------------------------------------ C17
IMPURE = {"mutation", "global-write", "config", "io", "nondet", "cache", "env-read"}


def c17(run):
    effects(run, IMPURE, "no mutation of arguments, defaults or globals, no configuration change, I/O, randomness, clock or cache", imports=True)
    run.extra["explanation"] = "ownership and effect analysis: containers are tagged with their owner (caller, default, module, fresh); stores to non-fresh owners and effectful calls are reported"


# ------------------------------------------------------------------ C16
ROUND = {"floor", "ceil", "round", "trunc", "sign"}


def data_nodes(roots):
    """nodes a value flows through to the roots (conditions excluded)"""
    seen, stack = set(), list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        if n.op == "sel":
            stack.extend(n.args[1:])
        elif n.op in ("cmp", "and", "or", "not", "beq", "bool"):
            continue
        elif n.op == "loop":
            p = N.loop_parts(n)
            stack.extend(p["init"])
            stack.extend(p["body"])
        else:
            stack.extend(n.args)


def smooth_syms(roots, carries=None):
    """(symbols with a data path to the roots, those with a path through no rounding operation)"""
    def go(block):
        seen, stack, out = set(), list(roots), set()
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "sym":
                out.add(n.attr)
            if block and (n.op == "fn" and n.attr in ROUND or n.op == "mark" and n.attr in ("stopgrad", "cast:int")):
                continue
            if n.op == "sel":
                stack.extend(n.args[1:])
            elif n.op in ("cmp", "and", "or", "not", "beq", "bool"):
                continue
            elif n.op == "loop":
                p = N.loop_parts(n)
                stack.extend(p["init"])
                stack.extend(p["body"])
            else:
                stack.extend(n.args)
        return {s for s in out if not str(s).startswith(("$", "?"))}
    return go(False), go(True)


def partials(n):
    """local partial derivatives of one operation as value graphs (those that can be singular)"""
    o, a = n.op, n.args
    if o == "div":
        return [(a[0], N.div(N.ONE, a[1])), (a[1], N.div(a[0], N.mul(a[1], a[1])))]
    if o == "pow":
        if a[1].op == "const":
            if a[1].attr.denominator == 1 and a[1].attr >= 1:
                return []
            return [(a[0], N.mul(a[1], N.power(a[0], N.sub(a[1], N.ONE))))]
        return [(a[0], N.mul(a[1], N.power(a[0], N.sub(a[1], N.ONE)))), (a[1], N.mul(n, N.fn("log", a[0])))]
    if o == "fn":
        u = a[0]
        t = n.attr
        d = {"log": lambda: N.div(N.ONE, u), "log1p": lambda: N.div(N.ONE, N.add(N.ONE, u)),
             "arcsin": lambda: N.div(N.ONE, N.sqrt(N.sub(N.ONE, N.power(u, N.TWO)))), "arccos": lambda: N.div(N.ONE, N.sqrt(N.sub(N.ONE, N.power(u, N.TWO)))),
             "arccosh": lambda: N.div(N.ONE, N.sqrt(N.sub(N.power(u, N.TWO), N.ONE))), "arctanh": lambda: N.div(N.ONE, N.sub(N.ONE, N.power(u, N.TWO))),
             "cbrt": lambda: N.div(N.ONE, N.power(N.fn("cbrt", u), N.TWO)), "tan": lambda: N.div(N.ONE, N.power(N.fn("cos", u), N.TWO))}.get(t)
        if d:
            return [(u, d())]
        if t == "arctan2":
            den = N.add(N.power(u, N.TWO), N.power(a[1], N.TWO))
            return [(u, N.div(a[1], den)), (a[1], N.div(u, den))]
    return []


def singular(root, ev):
    """operation inside the branch whose derivative is certainly undefined or infinite at the point, or None; 'unknown' if it cannot be bounded"""
    seen, stack, unk = set(), [root], None
    while stack:
        n = stack.pop()
        if n.id in seen or not N.deps(n):
            continue
        seen.add(n.id)
        if n.op in ("cmp", "and", "or", "not", "beq", "loop", "opq"):
            continue
        if n.op == "mark" and n.attr == "stopgrad":
            continue
        if n.op == "sel":
            if n.attr == "lazy":
                c = ev(n.args[0])
                if c is True:
                    stack.append(n.args[1])
                elif c is False:
                    stack.append(n.args[2])
                else:
                    unk = "unknown"
                continue
            stack.extend(n.args[1:])
            continue
        for arg, p in partials(n):
            if not N.deps(arg):
                continue
            v = ev(p)
            if v is ival.NANV or v is ival.INFV:
                return n
            if v is ival.UNK:
                unk = "unknown"
        stack.extend(n.args)
    return unk


def reached(roots, x, ev):
    """False if every path from the roots to x goes through a conditional (not an elementwise select) that takes another branch"""
    seen, stack = set(), list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n is x:
            return True
        if n.op == "sel" and n.attr == "lazy":
            c = ev(n.args[0])
            stack.extend(n.args[1:2] if c is True else n.args[2:] if c is False else n.args[1:])
        elif n.op == "loop":
            p = N.loop_parts(n)
            stack.extend(p["init"])
            stack.extend(p["body"])
        else:
            stack.extend(n.args)
    return False


def select_trap(n, domain, k, salt, outs):
    """search for a point where an eager select poisons the derivative of the branch it takes"""
    c = n.args[0]
    roots = [n] + list(domain.constraints)
    syms = sorted({s for r in roots for s in N.deps(r) if not s.startswith("$")})
    if any(s.startswith("?") for r in roots for s in N.deps(r)):
        return None, 0
    carry = sorted({s for r in roots for s in N.deps(r) if s.startswith("$")})
    import random
    rng = random.Random((decide.SEED, salt).__hash__() & 0xffffffff)
    allsyms = syms + carry
    if not allsyms:
        return None, 0
    env = decide.proposals(allsyms, domain, decide.graph_consts([n]), k, rng)
    pts = [{s: float(env[s][i]) for s in allsyms} for i in range(k)]
    # points exactly on the surfaces symbol = constant that the condition compares with
    exact = []
    for x in N.walk([n]):
        if x.op == "cmp":
            for u, v in (x.args, x.args[::-1]):
                if u.op == "sym" and v.op == "const":
                    for p in pts[:6]:
                        q = dict(p)
                        q[u.attr] = float(v.attr)
                        exact.append(q)
    tried = 0
    for p in exact + pts[:120]:
        if not all(domain.dom.get(s, REAL).ok(v) for s, v in p.items()):
            continue
        for mode in (True, False):
            e = {s: (Fraction(v) if mode or v == 0 else ival.box(Fraction(v))) for s, v in p.items()}
            ev = ival.Eval(e)
            if not all(ev(cc) is True for cc in domain.constraints):
                continue
            tried += 1
            cv = ev(c)
            if cv not in (True, False):
                continue
            keep, drop = (n.args[1], n.args[2]) if cv else (n.args[2], n.args[1])
            kv = ival.iv(ev(keep))
            if not isinstance(kv, tuple) or singular(keep, ev) is not None or not reached(outs, n, ev):
                continue
            s = singular(drop, ev)
            if s is not None and s != "unknown":
                return (p, s), tried
    return None, tried


def quantised(r, roots, domain, salt):
    """point where a rounding r = round(y) stands in for y: the result depends on r, but hardly changes when r is replaced
    by y, so the derivative with respect to y is lost (an angle reduced by whole turns changes a lot instead)"""
    import random
    y = r.args[0]
    rng = random.Random((decide.SEED, salt, 3).__hash__() & 0xffffffff)
    alt = N.add(N.mul(N.TWO, r), N.ONE)
    for root in roots:
        if r.id not in {x.id for x in data_nodes([root]) if x.op == "fn"}:
            continue
        loops = [x for x in N.walk([root], False) if x.op == "loop"]
        m = {l: N.sym("$q%d" % k) for k, l in enumerate(loops)}
        root2, r2 = N.subst(root, m), N.subst(r, m)
        y2 = N.subst(y, m)
        smooth, other = N.subst(root2, {r2: y2}), N.subst(root2, {r2: N.subst(alt, m)})
        if smooth is root2:
            continue
        syms = sorted({s for x in [root2, y2] + domain.constraints for s in N.deps(x)})
        env = decide.proposals(syms, Domain(dict(domain.dom, **{s: POS for s in syms if s.startswith("$")}), (), domain.groups), [], 40, rng)
        good = 0
        for i in range(40):
            p = {s: ival.box(Fraction(float(env[s][i]))) if env[s][i] != 0 else Fraction(0) for s in syms}
            ev = ival.Eval(p)
            if any(ev(c) is not True for c in domain.constraints):
                continue
            a, b, c, q = (ival.iv(ev(x)) for x in (root2, smooth, other, r2))
            if not all(isinstance(v, tuple) for v in (a, b, q)) or min(abs(q[0]), abs(q[1])) < 10:
                continue
            if max(abs(a[0] - b[1]), abs(a[1] - b[0])) > 1e-6 * min(abs(a[0]), abs(a[1])):
                good = -99
                break
            if ival.separated(c, a):
                good += 1
                if good >= 5:
                    return {s: float(ival.iv(v)[0]) for s, v in p.items()}
    return None


def c16(run):
    I = run.I
    for lab, loc, fn, thunk in calls(run, True):
        if fn is not None and fn.kind in ("bool", "count"):
            continue

        def one():
            I.reset_events()
            run.cache.clear()
            bad = None
            try:
                v, paths = thunk()
            except Incomplete as e:
                bad, v = e, None
            ev = [e for e in I.events if e.kind in ("custom-rule", "grad-block") or e.kind == "leak" and any(w in e.detail for w in ("()", "NumPy", "device_get", "static argument", "math."))]
            rule = "no value is detached from differentiation on its way to the result"
            if ev:
                run.fact(lab, "%s:%s %s" % (ev[0].file, ev[0].line, ev[0].func), rule, False, dict(events=[repr(e) for e in ev], call_path=ev[0].chain), "effect analysis")
                return
            if bad is not None:
                raise bad
            if isinstance(v, Raised):
                raise v.e
            if fn is None:
                for p in paths:
                    for c in p[2]:
                        a = c.kwargs.get("adjoint")
                        if isinstance(a, ExtCall) and a.path.split(".")[-1] in ("BacksolveAdjoint", "ForwardMode", "ImplicitAdjoint"):
                            run.fact(lab + " adjoint", c.loc or loc, "the adjoint differentiates the discrete solution", False, dict(adjoint=repr(a)), "abstract value of the call argument")
                # numerical propagators: arguments reach the solve
                nodes = []
                for p in paths:
                    for c in p[2]:
                        for x in list(c.args) + list(c.kwargs.values()):
                            try:
                                nodes += [y for z in flatten(x) if isinstance(z, Arr) for y in z.nodes()]
                            except Exception:
                                pass
            else:
                nodes = [x for o in run.as_outs(fn, v) for x in o.reshape(-1)]
            nodes = list({x.id: x for x in nodes}.values())
            det = [x for x in data_nodes(nodes) if x.op == "mark" and x.attr in ("stopgrad", "cast:int") and N.deps(x)]
            if det:
                run.fact(lab, det[0].loc or loc, rule, False, dict(construct=[N.show(x, 4) for x in det[:4]], at=[str(x.loc) for x in det[:4]]), "data-path analysis")
            else:
                al, sm = smooth_syms(nodes)
                lost = sorted(al - sm)
                if lost:
                    rd = [x for x in data_nodes(nodes) if x.op == "fn" and x.attr in ROUND]
                    run.fact(lab, (rd[0].loc if rd else None) or loc, rule, False, dict(symbols=lost, construct=[N.show(x, 4) for x in rd[:3]]), "data-path analysis")
                else:
                    for x in [x for x in data_nodes(nodes) if x.op == "fn" and x.attr in ROUND and x.attr != "sign" and N.deps(x)][:8] if fn is not None else []:
                        w = quantised(x, nodes, dom_of(fn, lab), len(run.obs))
                        if w:
                            run.fact(lab, x.loc or loc, rule, False, dict(construct=N.show(x, 4), point=w), "interval evaluation: the result follows the rounded value as if it were the exact one")
                            break
                    else:
                        run.fact(lab, loc, rule, True, how="data-path analysis")
            if fn is not None and "batched" not in lab:
                salt = len(run.obs)

                def beside(nodes=nodes, salt=salt, fn=fn):
                    dom, end, n = spec.domain_of(fn), (60 if run.thorough else 5), 0
                    ys = kink.frontier(nodes)
                    for y in ys:
                        w, k = kink.search(y, dom, (decide.SEED, salt).__hash__() & 0xffffffff, end / len(ys))
                        n += k
                        if w:
                            return "refuted", "interval evaluation of the derivative on and beside the surface", w
                    decide.STATS["boxes"] += n
                    return "proved", "%d points on branch surfaces" % n, None
                run.ob(lab + " beside", loc, "on a branch surface the derivative is the limit of the derivatives beside it", beside)
            sels = [x for x in data_nodes(nodes) if x.op == "sel" and x.attr == "eager" and N.deps(x)]
            if fn is None or not sels:
                return
            dom = dom_of(fn, lab)
            for j, x in enumerate(sorted(sels, key=lambda x: x.id)):
                salt = len(run.obs)

                def trap(x=x, salt=salt, dom=dom):
                    r, tried = select_trap(x, dom, 60 if not run.thorough else 400, salt, nodes)
                    decide.STATS["boxes"] += tried
                    if r is None:
                        return "proved", "interval search of the discarded branch", None
                    return "refuted", "interval evaluation", dict(point={s: repr(q) for s, q in r[0].items()}, singular_operation=N.show(r[1], 4), at=str(r[1].loc), select=N.show(x, 4))
                run.ob("%s select %d" % (lab, j), x.loc or loc, "the branch a select discards is differentiable where it is discarded", trap)
        run.guard(lab, loc, one)
    I.reset_events()
    run.extra["explanation"] = "data-path analysis of the value graphs: detaching marks, rounding on every path, custom rules; eager selects whose discarded branch has a singular derivative"


# ------------------------------------------------------------------ C18
def _pi_like(c):
    """constant that is a truncated multiple of pi"""
    try:
        v = abs(float(c))
    except OverflowError:
        return False
    for k in (1, 2, 4, .5, .25, 1 / 180, 1.5):
        for w in (k * math.pi, 1 / (k * math.pi)):
            r = abs(v / w - 1)
            if 1e-15 < r < 3e-6:
                return True
    return False


def c18(run):
    I = run.I
    for lab, loc, fn, thunk in calls(run, True, True):
        if "defaults" in lab and fn is not None:
            continue

        def one():
            I.reset_events()
            run.cache.clear()
            bad = None
            try:
                v, paths = thunk()
            except Incomplete as e:
                bad, v, paths = e, None, []
            rule = "no value is narrowed to a fixed lower precision"
            ev = [e for e in I.events if e.kind in ("precision", "precision-context")]
            if ev:
                run.fact(lab, "%s:%s %s" % (ev[0].file, ev[0].line, ev[0].func), rule, False, dict(events=[repr(e) for e in ev]), "effect analysis")
                return
            if bad is not None:
                raise bad
            if isinstance(v, Raised):
                raise v.e
            arrs = [x for x in flatten(v) if isinstance(x, Arr)] if not isinstance(v, ExtCall) else []
            for p in paths:
                for c in p[2]:
                    for x in list(c.args) + list(c.kwargs.values()):
                        try:
                            arrs += [z for z in flatten(x) if isinstance(z, Arr)]
                        except Exception:
                            pass
            nodes = [y for x in arrs for y in x.nodes()]
            data = {x.id for x in data_nodes(nodes)}  # an integer that only selects a branch does not limit the precision
            out = [x for x in N.walk(nodes) if x.op == "mark" and x.attr.startswith("cast:") and (x.attr in ("cast:f32", "cast:f16") or x.attr == "cast:int" and N.deps(x) and x.id in data)]
            if fn is not None and fn.kind == "count":
                out = [x for x in out if x.attr != "cast:int"]
            if out:
                run.fact(lab, out[0].loc or loc, rule, False, dict(construct=[x.attr + " " + N.show(x.args[0], 4) for x in out[:4]], at=[str(x.loc) for x in out[:4]]), "data-path analysis")
                return
            if fn is not None and fn.kind == "num":
                narrow = [x for x in arrs if x.dt in ("f32", "f16") or x.dt == "i" and any(N.deps(y) for y in x.nodes())]
                if narrow:
                    run.fact(lab, loc, rule, False, dict(dtype=narrow[0].dt), "type inference")
                    return
            pis = [x for x in N.walk(nodes) if x.op == "const" and _pi_like(x.attr)]
            if pis:
                run.fact(lab, pis[0].loc or loc, "pi is not truncated", False, dict(constants=[float(x.attr) for x in pis], at=[str(x.loc) for x in pis]), "constant inspection")
                return
            run.fact(lab, loc, rule, True, how="type inference and data-path analysis")
        run.guard(lab, loc, one)
    I.reset_events()
    run.extra["explanation"] = "element-type inference on the value graphs; conversions, precision options and literal constants on data paths"
