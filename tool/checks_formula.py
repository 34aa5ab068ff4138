"""Checks that compare value graphs of the source with reference formulas."""
import ast
from fractions import Fraction
import numpy as np

import nodes as N
from nodes import sym, const as C, sub, add, mul, div, neg, sqrt, power, fn, cmp, land, lor, lnot, sel
import spec
from spec import BYNAME, dot, cross, norm, vec, U, two_body, sq
from decide import REAL, POS, NONNEG, NONZERO, NEGD, RANGE, Dom, Domain
from framework import Skip, Wrong
from checks_round import rounding
from values import Incomplete, Func, Wrapped, Partial

S = sym


def one(run, name, **kw):
    o = run.outs(BYNAME[name], **kw)
    return o


def scalar(run, name, loc, a):
    """a scalar result (also accepts a one-element array as documented keepdims results)"""
    if a.size != 1:
        raise Wrong("%s returns shape %s where a scalar is documented" % (name, a.shape))
    return a.reshape(-1)[0]


def loc_of(run, name):
    return run.where(run.value(BYNAME[name].path))


def words(run):
    """identifiers that occur as string constants in the library: possible dictionary keys"""
    if not hasattr(run, "_words"):
        out = set()
        for t in run.trees():
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and len(n.value) < 30:
                    out.add(n.value)
        run._words = sorted(out)
    return run._words


# ---------------------------------------------------------------------- C01
def unwrap(v):
    d = 0
    while isinstance(v, (Wrapped, Partial)) and d < 10:
        v, d = v.f, d + 1
    return v


def c01(run):
    chi, al = S("chi"), S("alpha")
    fact = [1, 1, 2, 6, 24, 120]
    code = {}
    for n in range(6):
        nm = "ufunc%d" % n
        loc = loc_of(run, nm)

        def build():
            f = BYNAME[nm]
            u = scalar(run, nm, loc, one(run, nm)[0])
            code[n] = (u, loc)
            d = spec.domain_of(f)
            run.eq("U%d = documented universal function" % n, loc, u, U(n, chi, al), d)
            ref0 = div(power(chi, C(n)), C(fact[n])) if n else C(1)
            run.eq("U%d at alpha = 0" % n, loc, N.subst(u, {al: C(0)}), ref0, d)
            run.eq("U%d at chi = 0" % n, loc, N.subst(u, {chi: C(0)}), C(1 if n == 0 else 0), d)
        run.guard("U%d" % n, loc, build)
    d = spec.domain_of(BYNAME["ufunc0"])
    for n in range(4):
        if n in code and n + 2 in code:
            lhs = add(code[n][0], mul(al, code[n + 2][0]))
            rhs = div(power(chi, C(n)), C(fact[n])) if n else C(1)
            run.eq("U%d + alpha U%d = chi^%d/%d!" % (n, n + 2, n, n), code[n + 2][1], lhs, rhs, d, rule="recurrence of the universal functions")
    for n in range(5):
        if n in code and n + 1 in code:
            run.eq("dU%d/dchi = U%d" % (n + 1, n), code[n + 1][1], N.diff(code[n + 1][0], chi), code[n][0], d, rule="derivative of the value graph")
    if 0 in code and 1 in code:
        run.eq("dU0/dchi = -alpha U1", code[0][1], N.diff(code[0][0], chi), neg(mul(al, code[1][0])), d, rule="derivative of the value graph")


# ---------------------------------------------------------------------- C02
def outer_loops(roots):
    return [n for n in N.walk(roots, into_loops=False) if n.op == "loop"]


def kepler_rows(run, given=None, batch=None):
    """[(pos row, vel row)] as node lists"""
    f = BYNAME["kepler"]
    o = run.outs(f)
    if len(o) != 2:
        raise Skip("kepler returns %d values" % len(o))
    return o


def c02(run):
    f = BYNAME["kepler"]
    loc = loc_of(run, "kepler")
    r0, v0, mu = vec("r0"), vec("v0"), S("mu")

    def rows():
        o = kepler_rows(run)
        for a, nm in zip(o, ("position", "velocity")):
            if a.shape != (2, 3):
                run.fact("%s has one row per time" % nm, loc, "result shape", False, dict(got=str(a.shape), want="(2, 3)"))
                return
        chi = S("chi")
        tb = two_body(r0, v0, chi, mu)
        dom = spec.domain_of(f)
        for i in range(2):
            t = S("ts_%d" % i)
            for a, ref, nm in ((o[0], tb["pos"], "position"), (o[1], tb["vel"], "velocity")):
                other = "ts_%d" % (1 - i)
                bad = [k for k in range(3) if other in N.deps(a[i, k])]
                run.fact("%s row %d independent of the other times" % (nm, i), loc, "no dependence between rows", not bad, dict(components=bad))
                L = outer_loops(list(a[i]))
                if len(L) != 1:
                    for k in range(3):
                        run.fact("%s row %d = F r0 + G v0" % (nm, i), loc, "one anomaly per row", None, dict(reason="%d loops in the graph" % len(L)))
                    continue
                for k in range(3):
                    g = N.subst(a[i, k], {L[0]: chi})
                    d = Domain(dict(dom.dom, chi=REAL), dom.constraints, dom.groups, {t: tb["dt"]} if t.attr in N.deps(g) else None)
                    if i == 1:
                        # same graph as row 0 after renaming
                        g0 = N.subst(o[0 if nm == "position" else 1][0, k], {outer_loops([o[0 if nm == "position" else 1][0, k]])[0]: chi}) if outer_loops([o[0 if nm == "position" else 1][0, k]]) else None
                        if g0 is not None and N.subst(g0, {S("ts_0"): t}) is g:
                            run.fact("%s row 1[%d] = F r0 + G v0" % (nm, k), loc, "same value graph as row 0", True, how="identical value graphs")
                            continue
                    run.eq("%s row %d[%d] = %s" % (nm, i, k, "F r0 + G v0" if nm == "position" else "Ft r0 + Gt v0"), loc, g, ref[k], d)
                    run.eq("%s row %d[%d] at chi = 0" % (nm, i, k), loc, N.subst(g, {chi: C(0), t: C(0)}), (r0 if nm == "position" else v0)[k], spec.domain_of(f), rule="zero anomaly returns the initial state")
    run.guard("kepler", loc, rows)

    def lengths():
        full = kepler_rows(run)
        for n in [1, 3, 5] + [k for k in run.limits() if k > 5]:
            got = run.outs(f, given={"ts": spec.symarr("ts", (n,))})
            for a, b, nm in zip(got, full, ("position", "velocity")):
                if a.shape != (n, 3):
                    run.fact("%s for %d times" % (nm, n), loc, "result shape", False, dict(got=str(a.shape), want="(%d, 3)" % n))
                    continue
                d = spec.domain_of(f)
                for i in range(n):
                    d.dom["ts_%d" % i] = REAL
                for i in range(n):
                    other = sorted(set().union(*[N.deps(x) for x in a[i]]) & {"ts_%d" % j for j in range(n) if j != i})
                    run.fact("%s row %d of %d times independent of the other times" % (nm, i, n), loc, "no dependence between rows", not other, dict(depends_on=other[:4]))
                    if other:
                        continue
                    m = {S("ts_0"): S("ts_%d" % i)}
                    run.arreq("%s row %d of %d times" % (nm, i, n), loc, a[i], np.array([N.subst(x, m) for x in b[0]], dtype=object), d, rule="each row is the propagation to its own time")
    run.guard("kepler for other numbers of times", loc, lengths)

    def scal():
        v, _ = run.call(run.value(f.path), [spec.symarr("t"), spec.symarr("r0", (3,)), spec.symarr("v0", (3,)), spec.symarr("mu")])
        o = run.as_outs(f, v)
        full = kepler_rows(run)
        ren = {S("ts_0"): S("t")}
        for a, b, nm in zip(o, full, ("position", "velocity")):
            if a.shape not in ((1, 3), (3,)):
                run.fact("scalar time %s" % nm, loc, "result shape", False, dict(got=str(a.shape)))
                continue
            run.arreq("scalar time %s" % nm, loc, a.reshape(3), np.array([N.subst(x, ren) for x in b[0]], dtype=object), spec.domain_of(f))
    run.guard("kepler with a scalar time", loc, scal)

    # Lagrange coefficients as published
    u1, u2, s0, r, rr = S("U1"), S("U2"), S("sigma0"), S("r"), S("r0")
    refs = {"lagrange_F": C(1) - div(u2, rr), "lagrange_G": div(rr * u1 + s0 * u2, sqrt(mu)), "lagrange_Ft": neg(div(sqrt(mu) * u1, r * rr)),
            "lagrange_Gt": C(1) - div(u2, r)}
    for nm, ref in refs.items():
        l = loc_of(run, nm)
        run.guard(nm, l, lambda: run.eq(nm, l, scalar(run, nm, l, one(run, nm)[0]), ref, spec.domain_of(BYNAME[nm])))

    def det():
        chi = S("chi")
        tb = two_body(r0, v0, chi, mu)
        sub_ = {u1: S("W1"), u2: S("W2"), s0: tb["sigma0"], rr: S("R0"), r: S("R")}
        g = {nm: scalar(run, nm, "", one(run, nm)[0]) for nm in refs}
        # F Gt - Ft G = 1 with U0 U2 = U1^2 - U2 identities: U1^2 = U2 (1 + U0)
        W0, W1, W2, R0, S0, M = S("W0"), S("W1"), S("W2"), S("R0"), S("S0"), mu
        m = {u1: W1, u2: W2, s0: S0, rr: R0}
        R = R0 * W0 + S0 * W1 + W2
        F, G = N.subst(g["lagrange_F"], m), N.subst(g["lagrange_G"], m)
        Ft, Gt = N.subst(N.subst(g["lagrange_Ft"], m), {r: R}), N.subst(N.subst(g["lagrange_Gt"], m), {r: R})
        # eliminate W0 by W1^2 = W2 (1 + W0)
        el = {W0: div(sq(W1), W2) - C(1)}
        lhs = N.subst(F * Gt - Ft * G, el)
        run.eq("F Gt - Ft G = 1", loc_of(run, "lagrange_G"), lhs, C(1), Domain({"W2": POS, "R0": POS, "mu": POS}), rule="symplectic identity of the Lagrange coefficients")
    run.guard("F Gt - Ft G", loc, det)


# ---------------------------------------------------------------------- C06
def c06(run):
    mu = S("mu")
    a, e, p, f, P = S("a"), S("e"), S("p"), S("f"), S("P")
    r, v = vec("r"), vec("v")
    pi2 = spec.TWO_PI
    refs = {
        "orb_period": pi2 * sqrt(div(power(a, C(3)), mu)),
        "a_from_period": power(div(mu * sq(S("orbperiod")), C(4) * sq(N.PI)), C(Fraction(1, 3))),
        "semimajor_axis": div(C(1), div(C(2), S("r_mag")) - div(sq(S("v_mag")), mu)),
        "semiparameter": div(sq(S("h_mag")), mu),
        "mean_motion": div(pi2, P),
        "equ_of_orbit": div(p, C(1) + e * spec.cos(f)),
        "equ_of_orb_uvi": S("r0") * S("U0") + S("sigma0") * S("U1") + S("U2"),
        "radius_periapsis": div(p, C(1) + e),
        "radius_apoapsis": div(p, C(1) - e),
        "semipara_from_ae": a * (C(1) - sq(e)),
        "a_from_pe": div(p, C(1) - sq(e)),
        "mean_anomaly_elps": sqrt(div(mu, power(a, C(3)))) * S("deltat"),
        "mean_anomaly_hypb": sqrt(div(mu, power(neg(a), C(3)))) * S("deltat"),
        "generalized_anomaly": S("alpha") * sqrt(mu) * S("deltat") + S("sigma") - S("sigma0"),
    }
    g = {}
    for nm, ref in refs.items():
        l = loc_of(run, nm)

        def build():
            o = one(run, nm)
            x = scalar(run, nm, l, o[0])
            g[nm] = x
            run.fact(nm + " returns a scalar for scalars", l, "result shape", o[0].shape == (), dict(got=str(o[0].shape)))
            run.eq(nm, l, x, ref, spec.domain_of(BYNAME[nm]))
        run.guard(nm, l, build)
    h, ev = cross(r, v), spec.ecc_vec(r, v, mu)
    for nm, ref in (("angular_momentum", h), ("eccentricity_vector", ev), ("sigma_fn", np.array([div(dot(r, v), sqrt(mu))], dtype=object))):
        l = loc_of(run, nm)
        run.guard(nm, l, lambda: run.arreq(nm, l, one(run, nm)[0], ref, spec.domain_of(BYNAME[nm])))
    D = Domain({"a": POS, "mu": POS, "p": POS, "e": RANGE(0, Fraction(999, 1000)), "orbperiod": POS, "P": POS})

    def pair(name, *need):
        return all(n in g for n in need)
    if pair("", "orb_period", "a_from_period"):
        l = loc_of(run, "a_from_period")
        run.eq("a_from_period(orb_period(a)) = a", l, N.subst(g["a_from_period"], {S("orbperiod"): g["orb_period"]}), a, D, rule="inverse pair")
        run.eq("orb_period(a_from_period(T)) = T", l, N.subst(g["orb_period"], {a: g["a_from_period"]}), S("orbperiod"), D, rule="inverse pair")
    if pair("", "semipara_from_ae", "a_from_pe"):
        l = loc_of(run, "a_from_pe")
        run.eq("a_from_pe(semipara_from_ae(a, e), e) = a", l, N.subst(g["a_from_pe"], {p: g["semipara_from_ae"]}), a, D, rule="inverse pair")
        run.eq("semipara_from_ae(a_from_pe(p, e), e) = p", l, N.subst(g["semipara_from_ae"], {a: g["a_from_pe"]}), p, D, rule="inverse pair")
    if pair("", "radius_periapsis", "radius_apoapsis", "a_from_pe"):
        run.eq("periapsis + apoapsis = 2a", loc_of(run, "radius_apoapsis"), g["radius_periapsis"] + g["radius_apoapsis"], C(2) * g["a_from_pe"], D, rule="mutual consistency")
    if pair("", "equ_of_orbit", "radius_periapsis", "radius_apoapsis"):
        l = loc_of(run, "equ_of_orbit")
        run.eq("orbit equation at f = 0", l, N.subst(g["equ_of_orbit"], {f: C(0)}), g["radius_periapsis"], D, rule="mutual consistency")
        run.eq("orbit equation at f = pi", l, N.subst(g["equ_of_orbit"], {f: N.PI}), g["radius_apoapsis"], D, rule="mutual consistency")
    if pair("", "mean_motion", "orb_period", "mean_anomaly_elps"):
        run.eq("mean anomaly = mean motion x time", loc_of(run, "mean_anomaly_elps"), g["mean_anomaly_elps"],
               N.subst(g["mean_motion"], {P: g["orb_period"]}) * S("deltat"), D, rule="mutual consistency")


# ---------------------------------------------------------------------- C07
def c07(run):
    x = vec("x")
    mu, R = S("mu"), S("R_eq")
    for nm, n, J in (("point_mass_grav", 0, None), ("j2_acc", 2, "J2"), ("j3_acc", 3, "J3"), ("j4_acc", 4, "J4")):
        l = loc_of(run, nm)
        F = BYNAME[nm]

        def build():
            o = one(run, nm)[0]
            if o.shape != (3,):
                run.fact(nm, l, "result shape", False, dict(got=str(o.shape), want="(3,)"))
                return
            allowed = {"x_0", "x_1", "x_2", "mu"} | ({J, "R_eq"} if J else set())
            for i in range(3):
                ex = N.deps(o[i]) - allowed
                run.fact("%s[%d] depends only on position and parameters" % (nm, i), l, "dependence set of the value graph", not ex, dict(extra=sorted(ex)))
            V = spec.potential(n, x, mu, S(J) if J else None, R)
            dom = spec.domain_of(F)
            dom = Domain({k: v for k, v in dom.dom.items()}, [cmp("<", C(0), spec.sumsq(list(x)))], [["x_0", "x_1", "x_2"]])
            for i in range(3):
                run.eq("%s[%d] = dV/dx%d" % (nm, i, i), l, o[i], N.diff(V, x[i]), dom, rule="acceleration is the gradient of the potential")
            for i, j in ((0, 1), (0, 2), (1, 2)):
                run.eq("%s curl %d%d" % (nm, i, j), l, N.diff(o[i], x[j]), N.diff(o[j], x[i]), dom, rule="conservative field (zero curl)")
            div_ = N.diff(o[0], x[0]) + N.diff(o[1], x[1]) + N.diff(o[2], x[2])
            run.eq("%s divergence" % nm, l, div_, C(0), dom, rule="Laplace equation (zero divergence)")
            run.eq("%s axial torque" % nm, l, x[0] * o[1] - x[1] * o[0], C(0), dom, rule="symmetry about the z axis")
            flip = {x[2]: neg(x[2])}
            sg = -1 if n % 2 else 1
            for i in range(3):
                run.eq("%s[%d] parity in z" % (nm, i), l, N.subst(o[i], flip), mul(C(sg * (-1 if i == 2 else 1)), o[i]), dom, rule="parity of the degree")
            for i in range(3):
                run.eq("%s[%d] linear in mu" % (nm, i), l, N.subst(o[i], {mu: mul(S("k"), mu)}), mul(S("k"), o[i]), Domain(dict(dom.dom, k=POS), dom.constraints, dom.groups), rule="linearity")
                if J:
                    run.eq("%s[%d] linear in %s" % (nm, i, J), l, N.subst(o[i], {S(J): mul(S("k"), S(J))}), mul(S("k"), o[i]), Domain(dict(dom.dom, k=REAL), dom.constraints, dom.groups), rule="linearity")
            # integer-free call forms: extra entries of the argument dictionary are ignored
            from values import LDict
            keys = list(dict.fromkeys(["mu", "J2", "J3", "J4", "R_eq", "rmin", "extra"] + words(run)))
            d2 = LDict([(k, spec.symarr(k)) for k in keys])
            v, _ = run.call(run.value(F.path), [spec.symarr("t"), spec.symarr("x", (6,)), d2])
            o2 = run.as_outs(F, v)[0]
            run.arreq("%s with further dictionary entries" % nm, l, o2, o, dom, rule="only the named parameters are read")
            for k in [3, 4, 7, 9, 42] + [j for j in run.limits(hi=200) if j > 4]:
                v, _ = run.call(run.value(F.path), [spec.symarr("t"), spec.symarr("x", (k,)), spec.arg_value(F.args[2])])
                run.arreq("%s of a state with %d components" % (nm, k), l, run.as_outs(F, v)[0], o, dom, rule="only the first three components are read")
        run.guard(nm, l, build)


# ---------------------------------------------------------------------- C08
def c08(run):
    t, t2 = S("angle"), S("angle2")
    for nm, ax in (("rotmat3dx", "x"), ("rotmat3dy", "y"), ("rotmat3dz", "z")):
        l = loc_of(run, nm)
        F = BYNAME[nm]

        def build():
            m = one(run, nm)[0]
            if m.shape != (3, 3):
                run.fact(nm, l, "result shape", False, dict(got=str(m.shape), want="(3, 3)"))
                return
            D = Domain()
            run.arreq(nm, l, m, spec.rot(ax, t), D)
            run.arreq(nm + " orthogonal", l, m.dot(m.T), spec.eye(), D, rule="M M^T = 1")
            det = dot(m[0], cross(m[1], m[2]))
            run.eq(nm + " determinant", l, det, C(1), D, rule="det M = 1")
            k = "xyz".index(ax)
            ek = np.array([C(1 if i == k else 0) for i in range(3)], dtype=object)
            run.arreq(nm + " fixes its axis", l, m.dot(ek), ek, D, rule="M e = e")
            i, j = (k + 1) % 3, (k + 2) % 3
            run.eq(nm + " right-handed cos", l, m[i, i], spec.cos(t), D, rule="right-handed turn")
            run.eq(nm + " right-handed sin", l, m[j, i], spec.sin(t), D, rule="right-handed turn")
            m2 = np.array([[N.subst(q, {t: t2}) for q in row] for row in m], dtype=object)
            ms = np.array([[N.subst(q, {t: add(t, t2)}) for q in row] for row in m], dtype=object)
            run.arreq(nm + " composition", l, m.dot(m2), ms, D, rule="angles add")
        run.guard(nm, l, build)
        for sh in [(1,), (2,), (3,), (2, 3), (3, 3), (1, 2, 3)]:
            def bat(sh=sh):
                v, _ = run.call(run.value(F.path), [spec.symarr("angle", sh)])
                o = run.as_outs(F, v)[0]
                if o.shape != sh + (3, 3):
                    run.fact("%s of angles %s" % (nm, sh), l, "result shape", False, dict(got=str(o.shape), want=str(sh + (3, 3))))
                    return
                base = one(run, nm)[0]
                ok, bad = True, None
                for i in np.ndindex(*sh):
                    s = S("angle" + "".join("_%d" % q for q in i))
                    w = np.array([[N.subst(q, {t: s}) for q in row] for row in base], dtype=object)
                    run.arreq("%s of angles %s element %s" % (nm, sh, i), l, o[i], w, Domain(), rule="one matrix per angle")
            run.guard("%s of angles %s" % (nm, sh), l, bat)


# ---------------------------------------------------------------------- C09
def c09(run):
    f = BYNAME["coe2rv"]
    l = loc_of(run, "coe2rv")
    p, e, i, ra, ap, nu, mu = [S(a.name) for a in f.args]
    R, V = spec.coe2rv(p, e, i, ra, ap, nu, mu)
    dom = spec.domain_of(f, cons=[cmp("<", C(0), C(1) + e * spec.cos(nu))])

    def build():
        o = run.outs(f)
        if len(o) != 2:
            raise Skip("coe2rv returns %d values" % len(o))
        run.arreq("position", l, o[0], R, dom)
        run.arreq("velocity", l, o[1], V, dom)
        if o[0].shape == (3,) and o[1].shape == (3,):
            h = cross(o[0], o[1])
            hm = sqrt(mu * p)
            hd = [spec.sin(i) * spec.sin(ra), neg(spec.sin(i) * spec.cos(ra)), spec.cos(i)]
            for k in range(3):
                run.eq("angular momentum[%d]" % k, l, h[k], hm * hd[k], dom, rule="r x v = sqrt(mu p) h^")
            run.eq("radius^2", l, dot(o[0], o[0]), sq(div(p, C(1) + e * spec.cos(nu))), dom, rule="orbit equation")
            ev = np.array([div(x, mu) for x in cross(o[1], h)], dtype=object)
            ev = np.array([ev[k] - o[0][k] * div(C(1) + e * spec.cos(nu), p) for k in range(3)], dtype=object)
            RR = spec.rot("z", ra).dot(spec.rot("x", i)).dot(spec.rot("z", ap))
            for k in range(3):
                run.eq("eccentricity vector[%d]" % k, l, ev[k], e * RR[k, 0], dom, rule="v x h/mu - r/|r| = e (periapsis direction)")
    run.guard("coe2rv", l, build)


# ---------------------------------------------------------------------- C10
def rv2coe_ref(r, v, mu):
    h = cross(r, v)
    hm = norm(h)
    e = spec.ecc_vec(r, v, mu)
    em = norm(e)
    nv = np.array([neg(h[1]), h[0], C(0)], dtype=object)
    tp = spec.TWO_PI
    incl = fn("arccos", div(h[2], hm))
    ra = fn("arctan2", h[0], neg(h[1]))
    ra = sel(cmp("<", ra, C(0)), tp + ra, ra)
    ap = fn("arctan2", norm(cross(nv, e)), dot(nv, e))
    ap = sel(cmp("<", e[2], C(0)), tp - ap, ap)
    nu = fn("arctan2", norm(cross(e, r)), dot(e, r))
    nu = sel(cmp("<", dot(r, v), C(0)), tp - nu, nu)
    return [div(sq(hm), mu), em, incl, ra, ap, nu]


def c10(run):
    f = BYNAME["rv2coe"]
    l = loc_of(run, "rv2coe")
    r, v, mu = vec("r"), vec("v"), S("mu")
    p, e, i, ra, ap, nu = S("p"), S("e"), S("i"), S("ra"), S("ap"), S("nu")
    R, V = spec.coe2rv(p, e, i, ra, ap, nu, mu)
    given = {**{r[k]: R[k] for k in range(3)}, **{v[k]: V[k] for k in range(3)}}
    eps = Fraction(1, 10 ** 6)
    T = Fraction(6283184307, 10 ** 9)
    mdom = Domain({"p": POS, "mu": POS, "e": RANGE(eps, 10 ** 4, True), "i": RANGE(eps, Fraction(3141591653, 10 ** 9)), "ra": RANGE(eps, T), "ap": RANGE(eps, T), "nu": RANGE(eps, T)},
                  [cmp("<", C(Fraction(1, 1000)), C(1) + e * spec.cos(nu))], (), given)
    names = ["p", "e", "inclination", "node", "argument of periapsis", "true anomaly"]
    want = [p, e, i, ra, ap, nu]

    def build():
        o = run.outs(f)
        if len(o) != 6:
            run.fact("six elements", l, "result structure", False, dict(got=len(o)))
            return
        ref = rv2coe_ref(r, v, mu)
        gdom = spec.domain_of(f)
        hh, ee = cross(r, v), spec.ecc_vec(r, v, mu)
        xdom = Domain(gdom.dom, gdom.constraints + [cmp("<", C(0), sq(hh[0]) + sq(hh[1])), cmp("<", C(0), spec.sumsq(list(ee)))], gdom.groups)
        for k in range(6):
            if o[k].size != 1:
                run.fact(names[k], l, "result shape", False, dict(got=str(o[k].shape)))
                continue
            c = o[k].reshape(-1)[0]
            run.fact(names[k] + " is a scalar", l, "result shape", o[k].shape == (), dict(got=str(o[k].shape)))
            run.invert(names[k] + " recovered in its quadrant", l, c, ref[k], want[k], gdom, mdom, (xdom, k >= 3))
        for k in range(2, 6):
            c = N.subst(o[k].reshape(-1)[0], given)
            hi = N.PI if k == 2 else spec.TWO_PI
            g = land(cmp("<=", C(0), c), cmp("<=", c, hi))
            run.rng(names[k] + " within [0, %s]" % ("pi" if k == 2 else "2 pi"), l, o[k].reshape(-1)[0], g, Domain(mdom.dom, mdom.constraints), 0, 1 if k == 2 else 2)
    run.guard("rv2coe", l, build)
    for nm in ("rv2coe", "inclination", "right_ascension", "argument_of_periapsis", "true_anomaly"):
        run.guard(nm + " under rounding", loc_of(run, nm), lambda: rounding(run, BYNAME[nm]))
    # published helpers on vectors
    nv, ev, hv = vec("nv"), vec("evec"), vec("h")
    helpers = {"inclination": fn("arccos", div(hv[2], norm(hv))),
               "right_ascension": sel(cmp("<", fn("arctan2", nv[1], nv[0]), C(0)), spec.TWO_PI + fn("arctan2", nv[1], nv[0]), fn("arctan2", nv[1], nv[0])),
               "argument_of_periapsis": sel(cmp("<", ev[2], C(0)), spec.TWO_PI - fn("arctan2", norm(cross(nv, ev)), dot(nv, ev)), fn("arctan2", norm(cross(nv, ev)), dot(nv, ev))),
               "true_anomaly": fn("arctan2", norm(cross(ev, r)), dot(ev, r))}
    for nm, ref in helpers.items():
        ll = loc_of(run, nm)

        def hb():
            x = one(run, nm)[0]
            if x.shape != (1,):
                run.fact(nm, ll, "result shape", False, dict(got=str(x.shape), want="(1,)"))
                return
            x = x[0]
            d = spec.domain_of(BYNAME[nm])
            if nm in ("argument_of_periapsis", "right_ascension"):
                # the node lies in the equatorial plane
                d = Domain(d.dom, d.constraints, d.groups, {nv[2]: C(0)})
            run.eq(nm, ll, x, ref, d, exact_boundary=False)
        run.guard(nm, ll, hb)


# ---------------------------------------------------------------------- C11
def c11(run):
    f = BYNAME["dxdx0"]
    l = loc_of(run, "dxdx0")
    r, v, r0, v0, mu, dt = vec("r"), vec("v"), vec("r0"), vec("v0"), S("mu"), S("deltat")
    Fs, Gs, Fts, Gts, Cs = S("F"), S("G"), S("Ft"), S("Gt"), S("C")
    blocks = spec.stm(r, v, r0, v0, Fs, Gs, Fts, Gts, Cs, mu)
    # on-manifold parametrisation
    chi = S("chi")
    tb = two_body(r0, v0, chi, mu)
    al = tb["alpha"]
    rm = tb["r"]
    sig = div(dot(r, v), sqrt(mu))
    Cref = div(C(3) * tb["U"][5] - chi * tb["U"][4] - sqrt(mu) * dt * tb["U"][2], sqrt(mu))
    man = {**{r[k]: tb["pos"][k] for k in range(3)}, **{v[k]: tb["vel"][k] for k in range(3)}, dt: tb["dt"]}
    scal = {Fs: tb["F"], Gs: tb["G"], Fts: tb["Ft"], Gts: tb["Gt"]}
    mdom0 = {"mu": POS, "chi": REAL}
    groups = [["r0_0", "r0_1", "r0_2"], ["v0_0", "v0_1", "v0_2"]]
    mcons = [cmp("<", C(0), spec.sumsq(list(r0))), cmp("<", C(0), rm)]

    for nm, k in (("prpr0", 0), ("prpv0", 1), ("pvpr0", 2), ("pvpv0", 3)):
        ll = loc_of(run, nm)

        def build():
            o = one(run, nm)[0]
            if o.shape != (3, 3):
                run.fact(nm, ll, "result shape", False, dict(got=str(o.shape), want="(3, 3)"))
                return
            fd = spec.domain_of(BYNAME[nm])
            m = {**man, **{s: N.subst(x, {}) for s, x in scal.items()}, Cs: N.subst(Cref, man)}
            mm = {s: x for s, x in m.items()}
            for idx in np.ndindex(3, 3):
                d = Domain({**fd.dom, **mdom0}, mcons, groups, mm)
                run.eq("%s[%d,%d]" % (nm, *idx), ll, o[idx], blocks[k][idx], d, rule="Battin 9.84-9.87", n=120 if not run.thorough else 1000, exact_boundary=False)
        run.guard(nm, ll, build)

    lc = loc_of(run, "C_func")
    cf = BYNAME["C_func"]
    ch, u2, u4, u5 = S("chi"), S("U2"), S("U4"), S("U5")
    run.guard("C_func", lc, lambda: run.eq("C_func", lc, scalar(run, "C_func", lc, one(run, "C_func")[0]),
                                           div(C(3) * u5 - ch * u4 - sqrt(mu) * dt * u2, sqrt(mu)), spec.domain_of(cf)))

    def whole():
        o = one(run, "dxdx0")[0]
        if o.shape != (6, 6):
            run.fact("dxdx0", l, "result shape", False, dict(got=str(o.shape), want="(6, 6)"))
            return
        # generic reference: ingredients from the caller's states, time and mu
        alg = div(C(2), norm(r0)) - div(dot(v0, v0), mu)
        chg = alg * sqrt(mu) * dt + sig - tb["sigma0"]
        u = {n: U(n, chg, alg) for n in (1, 2, 4, 5)}
        gen = {Fs: C(1) - div(u[2], norm(r0)), Gs: div(norm(r0) * u[1] + tb["sigma0"] * u[2], sqrt(mu)),
               Fts: neg(div(sqrt(mu) * u[1], norm(r) * norm(r0))), Gts: C(1) - div(u[2], norm(r)),
               Cs: div(C(3) * u[5] - chg * u[4] - sqrt(mu) * dt * u[2], sqrt(mu))}
        fd = spec.domain_of(f)
        for idx in np.ndindex(6, 6):
            b = blocks[(idx[0] // 3) * 2 + idx[1] // 3][idx[0] % 3, idx[1] % 3]
            ref = N.subst(b, gen)
            d = Domain({**fd.dom, **mdom0}, mcons, groups, man)
            run.eq("dxdx0[%d,%d]" % idx, l, o[idx], ref, d, rule="Battin 9.84-9.87 with the caller's states, time and mu", n=120 if not run.thorough else 1000,
                   exact_boundary=False)
            # zero elapsed time
            z = {**{r[k]: r0[k] for k in range(3)}, **{v[k]: v0[k] for k in range(3)}, dt: C(0)}
            run.eq("dxdx0 at zero elapsed time [%d,%d]" % idx, l, N.subst(o[idx], z), C(1 if idx[0] == idx[1] else 0), spec.domain_of(f), rule="zero elapsed time gives the identity", exact_boundary=False, n=120)
    run.guard("dxdx0", l, whole)


# ---------------------------------------------------------------------- C12
NEAR = [Fraction(1, 10 ** k) for k in (3, 6, 9, 11)]


def c12(run):
    r1, v1, r2, mu = vec("r1"), vec("v1"), vec("r2"), S("mu")

    def nmax():
        l = loc_of(run, "nmax_by_periapsis")
        f = BYNAME["nmax_by_periapsis"]
        x = scalar(run, f.name, l, one(run, f.name)[0])
        big = sel(cmp("<", S("r1"), S("r2")), S("r2"), S("r1"))
        am = div(big + S("rp_min"), C(2))
        q = div(S("tof"), spec.TWO_PI) * sqrt(div(mu, power(am, C(3))))
        run.eq("nmax_by_periapsis", l, x, fn("floor", q), spec.domain_of(f))
        for k in (1, 2, 7):
            for d in NEAR:
                for sg in (1, -1):
                    # a time of flight just above or below k revolutions
                    y = N.subst(x, {S("tof"): C(k + sg * d) * spec.TWO_PI * sqrt(div(power(am, C(3)), mu))})
                    run.two_step("nmax_by_periapsis: %s %d revolutions by %.0e" % ("above" if sg > 0 else "below", k, float(d)), l, "changes exactly at whole numbers of revolutions", (y, C(k if sg > 0 else k - 1), spec.domain_of(f)), (x, fn("floor", q), spec.domain_of(f)))
    run.guard("nmax_by_periapsis", "", nmax)

    def short():
        l = loc_of(run, "is_short_way")
        f = BYNAME["is_short_way"]
        x = scalar(run, f.name, l, one(run, f.name)[0])
        ref = cmp("<", C(0), dot(cross(r1, v1), cross(r1, r2)))
        run.eq("is_short_way", l, _b(x), ref, spec.domain_of(f), rule="true exactly when (r1 x v1).(r1 x r2) > 0")
    run.guard("is_short_way", "", short)

    def low():
        l = loc_of(run, "rp_islower_rmin")
        f = BYNAME["rp_islower_rmin"]
        x = scalar(run, f.name, l, one(run, f.name)[0])
        rr, vv = vec("r"), vec("v")
        h = cross(rr, vv)
        ev = spec.ecc_vec(rr, vv, mu)
        ref = cmp("<", div(div(spec.sumsq(list(h)), mu), C(1) + norm(ev)), S("rmin"))
        run.eq("rp_islower_rmin", l, _b(x), ref, spec.domain_of(f), rule="true exactly when p/(1+e) < rmin")
        rp = div(div(spec.sumsq(list(h)), mu), C(1) + norm(ev))
        for d in NEAR:
            for sg in (1, -1):
                y = _b(N.subst(x, {S("rmin"): rp * C(1 + sg * d)}))
                want = cmp("<", C(0), spec.sumsq(list(h))) if sg > 0 else N.boolean(False)
                run.two_step("rp_islower_rmin: threshold %s the periapsis by %.0e" % ("above" if sg > 0 else "below", float(d)), l, "changes exactly at the periapsis radius", (y, want, spec.domain_of(f)), (_b(x), ref, spec.domain_of(f)))
    run.guard("rp_islower_rmin", "", low)

    def perigee():
        l = loc_of(run, "pass_perigee")
        f = BYNAME["pass_perigee"]
        x = _b(scalar(run, f.name, l, one(run, f.name)[0]))
        ev = spec.ecc_vec(r1, v1, mu)
        c = cross(r1, r2)
        inner = land(cmp("<", C(0), dot(c, cross(r1, ev))), cmp("<", C(0), dot(c, cross(ev, r2))))
        ref = N.beq(inner, cmp("<", C(0), dot(cross(r1, v1), c)))
        # flown arcs: r1 at true anomaly f1, r2 further along by delta in the plane of motion
        p, e, i, ra, ap, f1, dl, k = S("p"), S("e"), S("i"), S("ra"), S("ap"), S("f1"), S("delta"), S("k")
        R, V = spec.coe2rv(p, e, i, ra, ap, f1, mu)
        RR = spec.rot("z", ra).dot(spec.rot("x", i)).dot(spec.rot("z", ap))
        R2 = [k * (RR[j, 0] * spec.cos(f1 + dl) + RR[j, 1] * spec.sin(f1 + dl)) for j in range(3)]
        given = {**{r1[j]: R[j] for j in range(3)}, **{v1[j]: V[j] for j in range(3)}, **{r2[j]: R2[j] for j in range(3)}}
        T = Fraction(62831, 10000)
        sem = cmp("<", spec.TWO_PI, f1 + dl)
        eps = C(Fraction(1, 1000))
        apart = [cmp("<", eps, fn("abs", f1 + dl - spec.TWO_PI)), cmp("<", eps, fn("abs", dl - N.PI)), cmp("<", C(Fraction(1, 100)), C(1) + e * spec.cos(f1))]
        dom = Domain({"p": POS, "mu": POS, "k": POS, "e": RANGE(Fraction(1, 10 ** 6), 3), "i": RANGE(0, Fraction(31415, 10000)), "ra": RANGE(0, T), "ap": RANGE(0, T),
                      "f1": RANGE(Fraction(1, 1000), T), "delta": RANGE(Fraction(1, 1000), T)}, apart)
        run.predicate("pass_perigee", l, x, ref, spec.domain_of(f), N.subst(x, given), sem, dom)
    run.guard("pass_perigee", "", perigee)


def _b(x):
    return N.n2b(x) if not N.is_bool(x) else x


# ---------------------------------------------------------------------- C21
def c21(run):
    f = BYNAME["radius_islow"]
    l = loc_of(run, "radius_islow")
    x = vec("x")
    ref = norm(x) - S("rmin")

    def build():
        o = one(run, "radius_islow")[0]
        run.fact("returns a scalar", l, "result shape", o.shape == (), dict(got=str(o.shape)))
        c = scalar(run, "radius_islow", l, o)
        ex = N.deps(c) - {"x_0", "x_1", "x_2", "rmin"}
        run.fact("depends only on position and rmin", l, "dependence set of the value graph", not ex, dict(extra=sorted(ex)))
        d = spec.domain_of(f)
        D = Domain(dict(d.dom, rmin=REAL), [], d.groups)
        run.eq("radius_islow", l, c, ref, D)
        run.eq("positive above the threshold", l, cmp("<", C(0), c), cmp("<", S("rmin"), norm(x)), D, rule="sign of the event")
        run.eq("zero on the threshold", l, N.subst(c, {S("rmin"): norm(x)}), C(0), D, rule="sign of the event")
        # as called by the ODE solver
        from values import Tok
        F = run.value(f.path)
        kws = {k: Tok(k) for k in ("terms", "solver", "t0", "t1", "dt0", "saveat", "stepsize_controller", "max_steps")}
        for n in ast.walk(unwrap(F).node) if isinstance(unwrap(F), Func) else ():
            # keyword names the code itself looks for
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and n.value not in kws and n.value not in ("t", "x", "args"):
                for what, kv in (("absent value", None), ("array value", spec.symarr("kw", (6,))), ("number", 1.0)):
                    other = dict(kws)
                    other[n.value] = kv
                    v, _ = run.call(F, [spec.symarr("t"), spec.symarr("x", (6,)), spec.arg_value(f.args[2])], other)
                    run.arreq("with the keyword argument %s (%s)" % (n.value, what), l, run.as_outs(f, v)[0], o, D, rule="accepts and ignores extra keyword arguments")
        v, _ = run.call(F, [spec.symarr("t"), spec.symarr("x", (6,)), spec.arg_value(f.args[2])], kws)
        run.arreq("with the solver's keyword arguments", l, run.as_outs(f, v)[0], o, D, rule="accepts and ignores extra keyword arguments")
        for k in list((3, 4, 7, 9, 42)) + run.limits(lo=3, hi=200):
            v, _ = run.call(F, [spec.symarr("t"), spec.symarr("x", (k,)), spec.arg_value(f.args[2])])
            run.arreq("with a state of %d components" % k, l, run.as_outs(f, v)[0], o, D, rule="reads the first three components only")
        from checks_effect import REPRS, _repr
        for kind in REPRS:
            # integers and host numbers, zero and negative thresholds included
            v, _ = run.call(F, [_repr(spec.arg_value(a), kind) for a in f.args])
            run.arreq("with " + REPRS[kind], l, run.as_outs(f, v)[0], o, D, rule="the signed altitude whatever the representation of the arguments")
        from values import LDict
        keys = list(dict.fromkeys(["rmin", "mu", "J2", "R_eq", "rmax", "extra"] + words(run)))
        v, _ = run.call(F, [spec.symarr("t"), spec.symarr("x", (6,)), LDict([(k, spec.symarr(k)) for k in keys])])
        run.arreq("with further dictionary entries", l, run.as_outs(f, v)[0], o, D, rule="only rmin is read")
    run.guard("radius_islow", l, build)
