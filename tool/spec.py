"""Public functions, their argument domains and physical dimensions, and the
reference value graphs (textbook formulas)."""
from fractions import Fraction
import numpy as np

import nodes as N
from nodes import add, sub, mul, div, neg, sqrt, power, fn, cmp, sel, land, lor, lnot, const, sym
from decide import REAL, POS, NONNEG, NONZERO, NEGD, RANGE, Dom, Domain
from values import Arr, LDict

H = Fraction(1, 2)
C = const
PI = N.PI
TWO_PI = mul(C(2), PI)

# dimensions (length, time)
D0, L1, T1, V1, MU, INVL = (0, 0), (1, 0), (0, 1), (1, -1), (3, -2), (-1, 0)
CHI = (H, 0)


def U_(n):
    return (n * H, 0)


class A:
    """one argument"""

    def __init__(self, name, dom=REAL, dim=D0, shape=(), role="num"):
        self.name, self.dom, self.dim, self.shape, self.role = name, dom, dim, shape, role


def v3(name, dim):
    return A(name, REAL, dim, (3,))


class Fn:
    def __init__(self, path, args, out, batch=None, kind="num", cons=None, loops=False):
        self.path, self.args, self.out, self.batch, self.kind, self.cons, self.loops = path, args, out, batch, kind, cons, loops
        self.name = path.split(".")[-1]


def _gargs(*names):
    return A("args", dim=None, role=("dict", names))


AX = "astrodynx."
TB = "astrodynx.twobody."
E_ = A("e", NONNEG)
MU_ = A("mu", POS, MU)

# out: list of (shape suffix, dimension or list of dimensions); kind: num | bool | count
FUNCS = [
    Fn(AX + "kepler_equ_elps", [A("E"), E_, A("M")], [D0], "elem"),
    Fn(AX + "kepler_equ_hypb", [A("H"), E_, A("N")], [D0], "elem"),
    Fn(AX + "kepler_equ_uni", [A("chi", REAL, CHI), A("alpha", REAL, INVL), A("r0", POS, L1), A("sigma0", REAL, CHI), A("deltat", REAL, T1), MU_], [(3 * H, 0)], "chi"),
    Fn(AX + "generalized_anomaly", [A("alpha", REAL, INVL), A("sigma", REAL, CHI), A("sigma0", REAL, CHI), A("deltat", REAL, T1), MU_], [CHI], "elem"),
    Fn(AX + "mean_anomaly_elps", [A("a", POS, L1), A("deltat", REAL, T1), MU_], [D0], "elem"),
    Fn(AX + "mean_anomaly_hypb", [A("a", NEGD, L1), A("deltat", REAL, T1), MU_], [D0], "elem"),
    Fn(AX + "solve_kepler_elps", [A("M"), A("e", RANGE(0, Fraction(999999, 1000000))), A("tol", POS, None), A("max_iter", Dom("int"), None)], [D0], None, loops=True),
    Fn(AX + "solve_kepler_hypb", [A("N"), A("e", RANGE(Fraction(1000001, 1000000), 100)), A("tol", POS, None), A("max_iter", Dom("int"), None)], [D0], None, loops=True),
    Fn(AX + "solve_kepler_uni", [A("deltat", REAL, T1), A("alpha", REAL, INVL), A("r0", POS, L1), A("sigma0", REAL, CHI), MU_, A("tol", POS, None), A("max_iter", Dom("int"), None)], [CHI], None, loops=True),
    Fn(AX + "dE", [A("E"), E_], [D0], "elem"),
    Fn(AX + "dH", [A("H"), E_], [D0], "elem"),
    Fn(AX + "orb_period", [A("a", POS, L1), MU_], [T1], "elem"),
    Fn(AX + "a_from_period", [A("orbperiod", POS, T1), MU_], [L1], "elem"),
    Fn(AX + "angular_momentum", [v3("r", L1), v3("v", V1)], [(2, -1)], "vec"),
    Fn(AX + "semimajor_axis", [A("r_mag", POS, L1), A("v_mag", NONNEG, V1), MU_], [L1], "elem"),
    Fn(AX + "eccentricity_vector", [v3("r", L1), v3("v", V1), MU_], [D0], "vecmu"),
    Fn(AX + "semiparameter", [A("h_mag", NONNEG, (2, -1)), MU_], [L1], "elem"),
    Fn(AX + "mean_motion", [A("P", POS, T1)], [(0, -1)], "elem"),
    Fn(AX + "equ_of_orbit", [A("p", POS, L1), E_, A("f")], [L1], "elem"),
    Fn(AX + "equ_of_orb_uvi", [A("U0", REAL, U_(0)), A("U1", REAL, U_(1)), A("U2", REAL, U_(2)), A("r0", POS, L1), A("sigma0", REAL, CHI)], [L1], "elem"),
    Fn(AX + "radius_periapsis", [A("p", POS, L1), E_], [L1], "elem"),
    Fn(AX + "radius_apoapsis", [A("p", POS, L1), E_], [L1], "elem"),
    Fn(AX + "semipara_from_ae", [A("a", NONZERO, L1), E_], [L1], "elem"),
    Fn(AX + "a_from_pe", [A("p", POS, L1), E_], [L1], "elem"),
    Fn(AX + "rv2coe", [v3("r", L1), v3("v", V1), MU_], [L1, D0, D0, D0, D0, D0], "vecscal"),
    Fn(AX + "coe2rv", [A("p", POS, L1), E_, A("incl"), A("raan"), A("argp"), A("f"), MU_], [L1, V1], "coe"),
    Fn(AX + "inclination", [v3("h", (2, -1))], [D0], "vec1"),
    Fn(AX + "true_anomaly", [v3("r", L1), v3("evec", D0)], [D0], "vec1"),
    Fn(AX + "right_ascension", [v3("nv", (2, -1))], [D0], "vec1"),
    Fn(AX + "argument_of_periapsis", [v3("nv", (2, -1)), v3("evec", D0)], [D0], "vec1"),
    Fn(TB + "lagrange_F", [A("U2", REAL, L1), A("r0", POS, L1)], [D0], "elem"),
    Fn(TB + "lagrange_G", [A("U1", REAL, CHI), A("U2", REAL, L1), A("sigma0", REAL, CHI), A("r0", POS, L1), MU_], [T1], "elem"),
    Fn(TB + "lagrange_Ft", [A("U1", REAL, CHI), A("r", POS, L1), A("r0", POS, L1), MU_], [(0, -1)], "elem"),
    Fn(TB + "lagrange_Gt", [A("U2", REAL, L1), A("r", POS, L1)], [D0], "elem"),
    Fn(TB + "sigma_fn", [v3("r", L1), v3("v", V1), MU_], [CHI], "vec1mu"),
] + [Fn(TB + "ufunc%d" % n, [A("chi", REAL, CHI), A("alpha", REAL, INVL)], [U_(n)], "chi") for n in range(6)] + [
    Fn(TB + "C_func", [A("chi", REAL, CHI), A("U2", REAL, U_(2)), A("U4", REAL, U_(4)), A("U5", REAL, U_(5)), A("deltat", REAL, T1), MU_], [(1, 1)], "elem"),
    Fn(TB + "prpr0", [v3("r", L1), v3("v", V1), v3("r0", L1), v3("v0", V1), A("F"), A("C", REAL, (1, 1)), MU_], [D0]),
    Fn(TB + "prpv0", [v3("r", L1), v3("v", V1), v3("r0", L1), v3("v0", V1), A("F"), A("G", REAL, T1), A("C", REAL, (1, 1)), MU_], [T1]),
    Fn(TB + "pvpr0", [v3("r", L1), v3("v", V1), v3("r0", L1), v3("v0", V1), A("Ft", REAL, (0, -1)), A("C", REAL, (1, 1)), MU_], [(0, -1)]),
    Fn(TB + "pvpv0", [v3("r", L1), v3("v", V1), v3("r0", L1), v3("v0", V1), A("F"), A("Gt"), A("C", REAL, (1, 1)), MU_], [D0]),
    Fn(TB + "dxdx0", [v3("r", L1), v3("v", V1), v3("r0", L1), v3("v0", V1), A("deltat", REAL, T1), MU_], ["stm"]),
    Fn(TB + "nmax_by_periapsis", [A("rp_min", POS, L1), A("r1", POS, L1), A("r2", POS, L1), A("tof", POS, T1), MU_], [D0], kind="count"),
    Fn(TB + "is_short_way", [v3("r1", L1), v3("v1", V1), v3("r2", L1)], [D0], kind="bool"),
    Fn(TB + "pass_perigee", [v3("r1", L1), v3("v1", V1), v3("r2", L1), MU_], [D0], kind="bool"),
    Fn(TB + "rp_islower_rmin", [A("rmin", POS, L1), v3("r", L1), v3("v", V1), MU_], [D0], kind="bool"),
    Fn("astrodynx.gravity.point_mass_grav", [A("t", REAL, T1), A("x", REAL, "state", (6,)), _gargs("mu")], [(1, -2)]),
    Fn("astrodynx.gravity.j2_acc", [A("t", REAL, T1), A("x", REAL, "state", (6,)), _gargs("mu", "J2", "R_eq")], [(1, -2)]),
    Fn("astrodynx.gravity.j3_acc", [A("t", REAL, T1), A("x", REAL, "state", (6,)), _gargs("mu", "J3", "R_eq")], [(1, -2)]),
    Fn("astrodynx.gravity.j4_acc", [A("t", REAL, T1), A("x", REAL, "state", (6,)), _gargs("mu", "J4", "R_eq")], [(1, -2)]),
    Fn("astrodynx.events.radius_islow", [A("t", REAL, T1), A("x", REAL, "state", (6,)), _gargs("rmin")], [L1]),
    Fn("astrodynx.utils.rotmat3dx", [A("angle")], [D0], "mat"),
    Fn("astrodynx.utils.rotmat3dy", [A("angle")], [D0], "mat"),
    Fn("astrodynx.utils.rotmat3dz", [A("angle")], [D0], "mat"),
    Fn("astrodynx.prop.kepler", [A("ts", REAL, T1, (2,)), v3("r0", L1), v3("v0", V1), MU_], [L1, V1], loops=True),
]
BYNAME = {f.name: f for f in FUNCS}
DICT_DOM = {"mu": (POS, MU), "J2": (REAL, D0), "J3": (REAL, D0), "J4": (REAL, D0), "R_eq": (POS, L1), "rmin": (POS, L1)}


def symarr(name, shape=(), org="arg", dt="f"):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = sym(name + "".join("_%d" % k for k in i))
    return Arr(a, dt, False, org=org)


def arg_value(a, batch=(), org="arg"):
    if isinstance(a.role, tuple) and a.role[0] == "dict":
        d = LDict((k, symarr(k, (), org)) for k in a.role[1])
        d.origin = org
        return d
    return symarr(a.name, tuple(batch) + tuple(a.shape), org, "i" if a.dom.kind == "int" else "f")


def domain_of(f, batch_of=None, cons=()):
    """Domain over the argument symbols of f"""
    dom, groups = {}, []
    for a in f.args:
        if isinstance(a.role, tuple):
            for k in a.role[1]:
                dom[k] = DICT_DOM[k][0]
            continue
        b = tuple((batch_of or {}).get(a.name, ()))
        sh = b + tuple(a.shape)
        names = [a.name + "".join("_%d" % k for k in i) for i in np.ndindex(*sh)]
        for n in names:
            dom[n] = a.dom
        if a.shape and a.shape[-1] in (3, 6):
            k = a.shape[-1]
            for j in range(0, len(names), k):
                groups.append(names[j:j + 3])
    # vectors are not zero
    cs = list(cons)
    for g in groups:
        cs.append(cmp("<", C(0), sumsq([sym(s) for s in g])))
    return Domain(dom, cs, groups)


def sumsq(v):
    r = power(v[0], C(2))
    for x in v[1:]:
        r = add(r, power(x, C(2)))
    return r


# ------------------------------------------------------------------ vector helpers (object arrays of nodes)
def vec(name):
    return np.array([sym("%s_%d" % (name, i)) for i in range(3)], dtype=object)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)


def norm(a):
    return sqrt(sumsq(list(a)))


def outer(a, b):
    return np.array([[x * y for y in b] for x in a], dtype=object)


def eye(n=3):
    return np.array([[C(1) if i == j else C(0) for j in range(n)] for i in range(n)], dtype=object)


def sq(x):
    return power(x, C(2))


sin = lambda x: fn("sin", x)
cos = lambda x: fn("cos", x)


# ------------------------------------------------------------------ universal functions
def U(n, chi, al):
    """case split on the sign of alpha"""
    sp, sm = sqrt(al), sqrt(neg(al))
    f = [1, 1, 2, 6, 24, 120][n]
    par = div(power(chi, C(n)), C(f)) if n else C(1)
    if n == 0:
        e, h = cos(sp * chi), fn("cosh", sm * chi)
    elif n == 1:
        e, h = div(sin(sp * chi), sp), div(fn("sinh", sm * chi), sm)
    elif n == 2:
        e, h = div(C(1) - cos(sp * chi), al), div(C(1) - fn("cosh", sm * chi), al)
    elif n == 3:
        e, h = div(chi - div(sin(sp * chi), sp), al), div(chi - div(fn("sinh", sm * chi), sm), al)
    elif n == 4:
        e, h = [div(div(sq(chi), C(2)) - div(C(1) - c, al), al) for c in (cos(sp * chi), fn("cosh", sm * chi))]
    else:
        e, h = [div(div(power(chi, C(3)), C(6)) - div(chi - s, al), al) for s in (div(sin(sp * chi), sp), div(fn("sinh", sm * chi), sm))]
    return sel(cmp("<", C(0), al), e, sel(cmp("<", al, C(0)), h, par, True), True)


def two_body(r0v, v0v, chi, mu):
    """universal-variable two-body motion: dict of reference quantities"""
    r0 = norm(r0v)
    al = div(C(2), r0) - div(dot(v0v, v0v), mu)
    s0 = div(dot(r0v, v0v), sqrt(mu))
    u = [U(n, chi, al) for n in range(6)]
    r = r0 * u[0] + s0 * u[1] + u[2]
    F = C(1) - div(u[2], r0)
    G = div(r0 * u[1] + s0 * u[2], sqrt(mu))
    Ft = neg(div(sqrt(mu) * u[1], r * r0))
    Gt = C(1) - div(u[2], r)
    dt = div(r0 * u[1] + s0 * u[2] + u[3], sqrt(mu))
    pos = np.array([F * a + G * b for a, b in zip(r0v, v0v)], dtype=object)
    vel = np.array([Ft * a + Gt * b for a, b in zip(r0v, v0v)], dtype=object)
    return dict(r0=r0, alpha=al, sigma0=s0, U=u, r=r, F=F, G=G, Ft=Ft, Gt=Gt, dt=dt, pos=pos, vel=vel)


# ------------------------------------------------------------------ Kepler equations
def kep_elps(E, e, M):
    return E - e * sin(E) - M


def kep_hypb(Hh, e, Nn):
    return e * fn("sinh", Hh) - Hh - Nn


def kep_uni(chi, al, r0, s0, dt, mu):
    return r0 * U(1, chi, al) + s0 * U(2, chi, al) + U(3, chi, al) - sqrt(mu) * dt


def dkep_uni(chi, al, r0, s0):
    return r0 * U(0, chi, al) + s0 * U(1, chi, al) + U(2, chi, al)


# ------------------------------------------------------------------ orbit relations
def ecc_vec(r, v, mu):
    h = cross(r, v)
    vh = cross(v, h)
    n = norm(r)
    return np.array([div(vh[i], mu) - div(r[i], n) for i in range(3)], dtype=object)


def rot(axis, t):
    c, s, o, z = cos(t), sin(t), C(1), C(0)
    m = {"x": [[o, z, z], [z, c, neg(s)], [z, s, c]], "y": [[c, z, s], [z, o, z], [neg(s), z, c]], "z": [[c, neg(s), z], [s, c, z], [z, z, o]]}[axis]
    return np.array(m, dtype=object)


def coe2rv(p, e, i, raan, argp, f, mu):
    R = rot("z", raan).dot(rot("x", i)).dot(rot("z", argp))
    k = div(p, C(1) + e * cos(f))
    rp = np.array([k * cos(f), k * sin(f), C(0)], dtype=object)
    q = sqrt(div(mu, p))
    vp = np.array([neg(q * sin(f)), q * (e + cos(f)), C(0)], dtype=object)
    return R.dot(rp), R.dot(vp)


def stm(rv, vv, r0v, v0v, F, G, Ft, Gt, Cc, mu):
    """Battin 9.84 - 9.87"""
    r, r0 = norm(rv), norm(r0v)
    dv, dr = vv - v0v, rv - r0v
    I3 = eye()
    one = C(1)
    R = outer(dv, dv) * div(r, mu) + outer(rv, r0v) * (div(one - F, power(r0, C(2)))) + outer(vv, r0v) * div(Cc, power(r0, C(3))) + I3 * F
    Rv = (outer(dr, v0v) - outer(dv, r0v)) * (div(r0 * (one - F), mu)) + outer(vv, v0v) * div(Cc, mu) + I3 * G
    skew = (outer(rv, vv) - outer(vv, rv)).dot(outer(rv, dv))
    V = -outer(dv, r0v) * div(one, power(r0, C(2))) - outer(rv, dv) * div(one, power(r, C(2))) \
        + (I3 - outer(rv, rv) * div(one, power(r, C(2))) + skew * div(one, mu * r)) * Ft \
        - outer(rv, r0v) * div(mu * Cc, power(r, C(3)) * power(r0, C(3)))
    Vv = outer(dv, dv) * div(r0, mu) + outer(rv, r0v) * div(r0 * (one - F), power(r, C(3))) - outer(rv, v0v) * div(Cc, power(r, C(3))) + I3 * Gt
    return R, Rv, V, Vv


def potential(n, x, mu, J, R):
    """disturbing potential whose gradient is the acceleration"""
    r = norm(x)
    if n == 0:
        return div(mu, r)
    u = div(x[2], r)
    P = {2: (C(3) * sq(u) - C(1)) * C(Fraction(1, 2)),
         3: (C(5) * power(u, C(3)) - C(3) * u) * C(Fraction(1, 2)),
         4: (C(35) * power(u, C(4)) - C(30) * sq(u) + C(3)) * C(Fraction(1, 8))}[n]
    return neg(div(mu, r) * J * power(div(R, r), C(n)) * P)
