"""Algebraic normal form of value graphs (value numbering modulo algebra).

A value graph is rewritten into a sum of monomials over atoms with rational
exponents.  Atoms are symbols, pi, primes (radicals), exp/sin/cos of canonical
arguments, polynomial factors (Q) under negative or fractional powers, absolute
values and uninterpreted functions.  Case distinctions (lax.cond / where) are
resolved by partitioning the input space by the signs of the compared terms.

Equality of normal forms is a proof of equality of the two real functions (on
the common domain); inequality of normal forms proves nothing (see ival.py).
"""
from fractions import Fraction
import cmath
import math
import random
import time
import nodes as N

NEG, ZER, POS = 1, 2, 4
ALL = 7
MAXT = 6000


class Blowup(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, key):
        self.key = key


class NeedDen(Exception):
    def __init__(self, m, d):
        self.m, self.d = m, d


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "data", "val", "poly", "aux")

    def __init__(self, kind, data, val, poly=None, aux=None):
        self.kind, self.data, self.val, self.poly, self.aux = kind, data, val, poly, aux

    def __repr__(self):
        if self.kind == "sym":
            return self.data
        if self.kind in ("pi",):
            return "pi"
        if self.kind == "prime":
            return str(self.data)
        if self.poly is not None:
            return "%s{%s}" % (self.kind if self.kind != "fn" else self.data[0], pshow(self.poly))
        return "%s%s" % (self.kind, self.data)


ATOMS = []
AIDX = {}


def atom(kind, data, valf, poly=None, aux=None):
    k = (kind, data)
    i = AIDX.get(k)
    if i is None:
        i = len(ATOMS)
        try:
            v = valf()
        except (OverflowError, ZeroDivisionError, ValueError):
            v = complex(hash(k) % 1000 + 0.123)
        ATOMS.append(Atom(kind, data, v, poly, aux))
        AIDX[k] = i
    return i


_rng = random.Random(12345)


def a_sym(name):
    def v():
        r = random.Random("nf" + str(name))
        return complex(0.3 + 1.1 * r.random())
    return atom("sym", name, v)


A_PI = atom("pi", None, lambda: complex(math.pi))


def a_prime(p):
    return atom("prime", p, lambda: complex(p))


# ---------------------------------------------------------------- polynomials
def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}


P1 = pconst(1)


def pvar(a, e=Fraction(1)):
    return {((a, Fraction(e)),): Fraction(1)}


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    if len(r) > MAXT:
        raise Blowup()
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c != 0 else {}


def pneg(p):
    return {m: -v for m, v in p.items()}


def psub(p, q):
    return padd(p, pneg(q))


def _reduce(coef, d):
    """coef * prod atom^e, with reducible powers expanded -> Poly"""
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        k = ATOMS[a].kind
        if k == "prime":
            fl = math.floor(e)
            if fl != 0:
                coef = coef * Fraction(ATOMS[a].data) ** fl
                e -= fl
                if e == 0:
                    del d[a]
                else:
                    d[a] = e
        elif k == "sin" and e >= 2 and e.denominator == 1:
            n = int(e) // 2
            r = int(e) % 2
            if r:
                d[a] = Fraction(1)
            else:
                del d[a]
            c = ATOMS[a].aux
            f = ppow_int(psub(P1, pvar(c, 2)), n)
            extra = f if extra is None else pmul(extra, f)
        elif k == "Q" and e >= 1:
            n = math.floor(e)
            r = e - n
            if r:
                d[a] = r
            else:
                del d[a]
            f = ppow_int(ATOMS[a].poly, n)
            extra = f if extra is None else pmul(extra, f)
        elif k == "abs" and e >= 2:
            n = math.floor(e / 2)
            r = e - 2 * n
            if r:
                d[a] = r
            else:
                del d[a]
            f = ppow_int(ATOMS[a].poly, 2 * n)
            extra = f if extra is None else pmul(extra, f)
    p = {tuple(sorted(d.items())): coef}
    return p if extra is None else pmul(p, extra)


_REDK = ("prime", "sin", "Q", "abs")


def pmul(p, q):
    if len(p) * len(q) > 40 * MAXT:
        raise Blowup()
    if len(p) > len(q):
        p, q = q, p
    r = {}
    pend = []
    for m1, c1 in p.items():
        if not m1:
            for m2, c2 in q.items():
                if any(e >= 1 and ATOMS[a].kind in ("Q", "prime") for a, e in m2):
                    pend.append(_reduce(c1 * c2, dict(m2)))
                    continue
                v = r.get(m2, 0) + c1 * c2
                if v == 0:
                    r.pop(m2, None)
                else:
                    r[m2] = v
            continue
        d1 = dict(m1)
        red1 = any(e >= 1 and ATOMS[a].kind in ("Q", "prime") or e >= 2 and ATOMS[a].kind in _REDK for a, e in m1)
        for m2, c2 in q.items():
            c = c1 * c2
            if not m2 and not red1:
                m = m1
            else:
                d = dict(d1)
                red = red1
                for a, e in m2:
                    if a in d:
                        s = d[a] + e
                        if s == 0:
                            del d[a]
                        else:
                            d[a] = s
                            if ATOMS[a].kind in _REDK:
                                red = True
                    else:
                        d[a] = e
                        if e >= 1 and ATOMS[a].kind in _REDK:
                            red = True
                if red:
                    pend.append(_reduce(c, d))
                    continue
                m = tuple(sorted(d.items()))
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > MAXT:
            raise Blowup()
    for x in pend:
        r = padd(r, x)
    return r


def ppow_int(p, n):
    if n == 0:
        return P1
    r = None
    b = p
    while n:
        if n & 1:
            r = b if r is None else pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def pval(p):
    s = 0
    for m, c in p.items():
        t = complex(float(c)) if abs(c) < Fraction(10) ** 300 else complex(1e300)
        for a, e in m:
            v = ATOMS[a].val
            try:
                t *= v ** (int(e) if e.denominator == 1 else float(e))
            except (ZeroDivisionError, OverflowError):
                return complex(float("nan"))
        s += t
    return s


def pshow(p, lim=6):
    out = []
    for m, c in sorted(p.items())[:lim]:
        t = [str(c)] if c != 1 or not m else []
        for a, e in m:
            t.append(repr(ATOMS[a]) + ("^%s" % e if e != 1 else ""))
        out.append("*".join(t))
    return " + ".join(out) + (" + ..." if len(p) > lim else "") if out else "0"


def _clear(p, deadline=None):
    """multiply by atoms until no reducible atom has a negative exponent"""
    for _ in range(40):
        mins = {}
        for m in p:
            for a, e in m:
                if e < 0 and ATOMS[a].kind in ("Q", "sin", "abs") and e < mins.get(a, 0):
                    mins[a] = e
        if not mins:
            return p
        # innermost last: clear the youngest atom first
        a = max(mins)
        if deadline and time.process_time() > deadline:
            raise Blowup()
        p = pmul(p, {((a, -mins[a]),): Fraction(1)})
    return p


def is_zero(p, deadline=None):
    if not p:
        return True
    v = pval(p)
    if v == v:
        scale = 0.0
        for m, c in p.items():
            scale = max(scale, abs(pval({m: c})))
        if abs(v) > 1e-6 * scale + 1e-290:
            return False        # cannot be identically zero: cheap rejection
    return not _clear(p, deadline)


# canonical representatives of polynomials used inside atoms
_CANON = {}     # rounded fingerprint -> list of polys
_CKEY = {}


def _fp(v):
    if v != v:
        return [("nan",)]
    def r(x):
        if abs(x) < 1e-12:
            return 0
        return float("%.8g" % x)
    return (r(v.real), r(v.imag))


def canon(p):
    """a registered polynomial provably equal to p (or p itself, newly registered)"""
    k = pkey(p)
    if k in _CKEY:
        return _CKEY[k]
    v = pval(p)
    res = None
    if v == v:
        f = _fp(v)
        for q in _CANON.get(f, ()):
            try:
                if is_zero(psub(p, q)):
                    res = q
                    break
            except Blowup:
                pass
        if res is None:
            _CANON.setdefault(f, []).append(p)
    if res is None:
        res = p
    _CKEY[k] = res
    return res


# ---------------------------------------------------------------- contexts
def mask_mul(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if a & x:
            for y in (NEG, ZER, POS):
                if b & y:
                    r |= ZER if ZER in (x, y) else (POS if x == y else NEG)
    return r


def mask_neg(a):
    return (a & ZER) | (POS if a & NEG else 0) | (NEG if a & POS else 0)


def mask_add(a, b):
    if a == 0 or b == 0:
        return 0
    r = 0
    for x in (NEG, ZER, POS):
        if a & x:
            for y in (NEG, ZER, POS):
                if b & y:
                    if x == y:
                        r |= x
                    elif x == ZER:
                        r |= y
                    elif y == ZER:
                        r |= x
                    else:
                        r |= ALL
    return r


class Ctx:
    def __init__(self, symmask=None, bounds=None):
        self.symmask = dict(symmask or {})
        self.bounds = dict(bounds or {})       # sym -> (lo, hi) Fractions or None
        self.sub = {}
        self.masks = {}
        self.zero_atoms = set()
        self.tden = {}
        self.atom_mode = True
        self.memo = {}
        self.desc = []
        self.deadline = None
        self.extra = {}          # Node -> Poly overrides

    def copy(self):
        c = Ctx(self.symmask, self.bounds)
        c.sub, c.masks, c.zero_atoms = dict(self.sub), dict(self.masks), set(self.zero_atoms)
        c.tden, c.atom_mode, c.desc = dict(self.tden), self.atom_mode, list(self.desc)
        c.deadline = self.deadline
        c.extra = self.extra
        return c

    # ---- signs
    def s_atom(self, a):
        A = ATOMS[a]
        k = A.kind
        if a in self.zero_atoms:
            return ZER
        m = self.masks.get(pkey(pvar(a)), ALL)
        if k in ("pi", "prime", "exp"):
            return POS
        if k == "sym":
            r = self.symmask.get(A.data, ALL) & m
            b = self.bounds.get(A.data)
            if b:
                lo, hi = b
                if lo is not None and lo > 0:
                    r &= POS
                if lo is not None and lo == 0:
                    r &= ZER | POS
                if hi is not None and hi < 0:
                    r &= NEG
                if hi is not None and hi == 0:
                    r &= ZER | NEG
            return r
        if k == "abs":
            q = self.s_poly(A.poly)
            return (POS if q & (POS | NEG) else 0) | (q & ZER)
        if k == "Q":
            return self.s_poly(A.poly)
        if k == "fn":
            nm = A.data[0]
            if nm == "arccos":
                return (POS | ZER) & m
            if nm in ("arctan", "arcsin", "arcsinh", "arctanh", "tanh"):
                return self.s_poly(A.aux[0]) & m
            if nm == "arctan2":
                y = self.s_poly(A.aux[0])
                if not y & NEG:
                    return (POS | ZER) & m
                if not y & POS:
                    return (NEG if not (y & ZER) else ALL) & m
                return m
            if nm == "mod":
                y = self.s_poly(A.aux[1])
                if y == POS:
                    return (POS | ZER) & m
        return m

    def s_mono(self, m, c):
        r = POS if c > 0 else NEG
        for a, e in m:
            s = self.s_atom(a)
            if e.denominator == 1:
                if int(e) % 2 == 0:
                    s = (s & ZER) | (POS if s & (POS | NEG) else 0)
                if e < 0:
                    s &= ~ZER
            elif e.denominator % 2 == 0:
                s = (POS | (s & ZER)) if e > 0 else POS
                if ATOMS[a].kind == "Q" and e > 0:
                    s = POS | (self.s_poly(ATOMS[a].poly) & ZER)
            r = mask_mul(r, s)
        return r

    def s_poly(self, p):
        if not p:
            return ZER
        if len(p) == 1:
            (m, c), = p.items()
            return self.s_mono(m, c)
        r = None
        for m, c in p.items():
            s = self.s_mono(m, c)
            r = s if r is None else mask_add(r, s)
            if r == ALL:
                break
        if r != ALL and r in (NEG, ZER, POS):
            return r
        # linear univariate with bounds
        lu = linear_uni(p)
        if lu is not None:
            a, c, d = lu
            r &= self.lin_mask(a, c, d)
        # c^2 <= 1 style bounds on trig
        r &= self.trig_mask(p)
        k, f = split_key(self, p, dry=True)
        if k is not None:
            mm = self.masks.get(pkey(k))
            if mm is not None:
                r &= mm if f > 0 else mask_neg(mm)
        return r if r else ALL

    def lin_mask(self, a, c, d):
        """sign mask of c*x+d where x ranges over its bounds"""
        A = ATOMS[a]
        lo = hi = None
        if A.kind == "sym":
            b = self.bounds.get(A.data, (None, None))
            lo, hi = b
            sm = self.symmask.get(A.data, ALL)
            los = his = True
            if not sm & NEG and (lo is None or lo < 0):
                lo = Fraction(0)
            if not sm & POS and (hi is None or hi > 0):
                hi = Fraction(0)
        elif A.kind in ("sin", "cos"):
            lo, hi = Fraction(-1), Fraction(1)
        else:
            return ALL
        v = [None if x is None else c * x + d for x in (lo, hi)]
        if c < 0:
            v.reverse()
        r = ALL
        if v[0] is not None and v[0] >= 0:
            r &= ~NEG
            if v[0] > 0:
                r &= ~ZER
            elif A.kind == "sym" and self._open(A.data, lo if c > 0 else hi):
                r &= ~ZER
        if v[1] is not None and v[1] <= 0:
            r &= ~POS
            if v[1] < 0:
                r &= ~ZER
            elif A.kind == "sym" and self._open(A.data, hi if c > 0 else lo):
                r &= ~ZER
        return r

    def _open(self, name, v):
        """is bound v excluded?  declared bounds are open; sign masks tell about 0"""
        if v == 0 and not self.symmask.get(name, ALL) & ZER:
            return True
        b = self.bounds.get(name, (None, None))
        return v in b

    def trig_mask(self, p):
        # 1 + e*cos(f) style terms are left to region splitting / assumptions
        if len(p) == 2 and () in p:
            d = p[()]
            (m, c), = [(m, c) for m, c in p.items() if m]
            if len(m) == 1 and ATOMS[m[0][0]].kind in ("sin", "cos") and m[0][1] in (1, 2):
                lo, hi = (Fraction(-1), Fraction(1)) if m[0][1] == 1 else (Fraction(0), Fraction(1))
                v = sorted([c * lo + d, c * hi + d])
                r = ALL
                if v[0] >= 0:
                    r &= ~NEG
                    if v[0] > 0:
                        r &= ~ZER
                if v[1] <= 0:
                    r &= ~POS
                    if v[1] < 0:
                        r &= ~ZER
                return r
        return ALL


def linear_uni(p):
    a = None
    d = Fraction(0)
    c = Fraction(0)
    for m, v in p.items():
        if not m:
            d = v
        elif len(m) == 1 and m[0][1] == 1 and (a is None):
            a, c = m[0][0], v
        else:
            return None
    return (a, c, d) if a is not None else None


def content(p):
    """(coef, mono dict, primitive) with p = coef * mono * primitive"""
    ms = list(p)
    mins = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(mins):
            if a in d:
                if d[a] < mins[a]:
                    mins[a] = d[a]
            elif mins[a] > 0:
                del mins[a]
        for a, e in d.items():
            if a not in mins and e < 0:
                mins[a] = e
        # atoms missing in this monomial have exponent 0
        for a in list(mins):
            if a not in d and mins[a] > 0:
                del mins[a]
    # negative mins must be true minima over all (missing = 0 handled since negative < 0)
    g = 0
    l = 1
    for c in p.values():
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    coef = Fraction(g, l)
    mins = {a: e for a, e in mins.items() if e != 0}
    if mins:
        inv = {tuple(sorted((a, -e) for a, e in mins.items())): 1 / coef}
        q = pmul(p, inv)
    else:
        q = pscale(p, 1 / coef)
    return coef, mins, q


def lead_sign(p):
    k = sorted(p)
    return 1 if p[k[-1]] > 0 else -1


def split_key(ctx, p, dry=False):
    """(key poly, sign) such that sign(p) = sign * sign(key) given positive known content;
    or raises NeedSplit for an undetermined factor first (not when dry)"""
    coef, mono, q = content(p)
    if len(q) == 1 and not dry:
        pass
    keep = {}
    f = 1
    for a, e in mono.items():
        s = ctx.s_atom(a) if not (dry and ATOMS[a].kind == "Q") else ALL
        if e.denominator % 2 == 0:
            continue
        if e.denominator == 1 and int(e) % 2 == 0 and (s & ZER == 0 or e < 0):
            continue
        if s == POS:
            continue
        if s == NEG:
            f = -f
            continue
        keep[a] = e
    if keep:
        if dry:
            if len(q) == 1 and len(keep) == 1:
                (a, e), = keep.items()
                return pvar(a), f * (1 if q[()] > 0 else -1)
            return None, 1
        a = min(keep)
        if ATOMS[a].kind == "Q":
            k, s = split_key(ctx, ATOMS[a].poly)
            return k, s
        return pvar(a), f * (1 if len(q) == 1 and q.get((), 1) > 0 else 1)
    if len(q) == 1:
        return (None, 1)
    q = _clear(q)
    if not q:
        return None, 1
    if len(q) > 1:
        _, _, q = content(q)
    s = lead_sign(q)
    return canon(q if s > 0 else pneg(q)), f * s


# ---------------------------------------------------------------- conversion
_PRIMES = {}


def factorint(n):
    if n in _PRIMES:
        return _PRIMES[n]
    m, r, d = n, {}, 2
    while d * d <= m and d < 100000:
        while m % d == 0:
            r[d] = r.get(d, 0) + 1
            m //= d
        d += 1
    if m > 1:
        r[m] = r.get(m, 0) + 1
    _PRIMES[n] = r
    return r


def const_pow(c, q):
    """c > 0 rational to rational power -> poly"""
    d = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        if n > 10 ** 14:
            a = atom("bigconst", n, lambda: complex(float(n)))
            d[a] = d.get(a, 0) + s * q
            continue
        for p, e in factorint(n).items():
            a = a_prime(p)
            d[a] = d.get(a, Fraction(0)) + s * e * q
    return _reduce(Fraction(1), d)


def a_poly(kind, p, valf, data=None):
    p = canon(p)
    return atom(kind, (data, pkey(p)) if data is not None else pkey(p), valf, poly=p)


def Qatom(p):
    p = canon(p)
    return atom("Q", pkey(p), lambda: pval(p), poly=p)


def ppow(ctx, p, q):
    """p ** q, q Fraction"""
    if q == 0:
        return P1
    if q == 1:
        return p
    if not p:
        if q > 0:
            return {}
        return pvar(atom("undef", "0^-", lambda: complex(1.2345)))
    if q.denominator == 1 and q > 0 and (len(p) == 1 or q <= 24):
        if len(p) == 1:
            (m, c), = p.items()
            return _reduce(c ** int(q), {a: e * q for a, e in m})
        if math.comb(len(p) + int(q) - 1, int(q)) > 4 * MAXT:
            raise Blowup()
        return ppow_int(p, int(q))
    if len(p) == 1:
        return mono_pow(ctx, p, q)
    coef, mono, prim = content(p)
    prim2 = _clear(prim)
    if not prim2:
        return ppow(ctx, {}, q)
    if len(prim2) == 1 or prim2 is not prim:
        # clearing multiplied by atoms: recompute generically
        prim = prim2 if prim2 is prim else prim
    if len(prim) == 1:
        return pmul(mono_pow(ctx, {tuple(sorted(mono.items())): coef}, q), mono_pow(ctx, prim, q))
    r = const_pow(coef, q)
    inner = P1
    for a, e in mono.items():
        r2, keep = atom_pow(ctx, a, e, q)
        if r2 is not None:
            r = pmul(r, r2)
        else:
            inner = pmul(inner, pvar(a, e))
    # factors sin^2
    if q.denominator % 2 == 0:
        prim, sq = extract_sin2(prim)
        for a in sq:
            r2, keep = atom_pow(ctx, a, Fraction(2), q)
            r = pmul(r, r2)
        sqr = perfect_square(prim) if len(prim) > 1 else None
        if sqr is not None and inner == P1:
            return pmul(r, ppow(ctx, pabs(ctx, sqr), 2 * q))
    if len(prim) == 1 and inner == P1:
        return pmul(r, mono_pow(ctx, prim, q))
    base = pmul(inner, prim) if inner != P1 else prim
    if len(base) == 1:
        return pmul(r, mono_pow(ctx, base, q))
    s = lead_sign(base)
    if q.denominator == 1:
        if s < 0:
            base = pneg(base)
            if int(q) % 2:
                r = pneg(r)
    a = Qatom(base)
    return pmul(r, _reduce(Fraction(1), {a: q}))


def perfect_square(p):
    """S with S*S == p, for small p (2..21 terms), else None"""
    n = len(p)
    k = 0
    for t in (2, 3, 4, 5, 6):
        if n <= t * (t + 1) // 2 and n >= 3:
            k = t
            break
    if not k:
        return None
    items = sorted(p.items())
    m, c = items[-1]
    if any((e / 2).denominator != 1 and ATOMS[a].kind not in ("prime",) for a, e in m):
        return None
    if c <= 0:
        return None
    x, y = N._iroot(c.numerator, 2), N._iroot(c.denominator, 2)
    if x is None or y is None:
        return None
    lead = {tuple((a, e / 2) for a, e in m): Fraction(x, y)}
    s = dict(lead)
    inv = {tuple((a, -e) for a, e in list(lead)[0]): 1 / (2 * list(lead.values())[0])}
    for _ in range(6):
        rem = psub(p, pmul(s, s))
        if not rem:
            return s
        mm = sorted(rem)[-1]
        t = pmul({mm: rem[mm]}, inv)
        if len(t) != 1 or any(e < 0 for a, e in list(t)[0]):
            return None
        s = padd(s, t)
    return None


def extract_sin2(p):
    """divide p by (1-cos^2 m) as often as possible -> (quotient, [sin atoms])"""
    outl = []
    for _ in range(6):
        hit = False
        cs = {a for m in p for a, e in m if ATOMS[a].kind == "cos"}
        for c in cs:
            if any(e < 0 or e.denominator != 1 for m in p for a, e in m if a == c):
                continue
            by = {}
            for m, v in p.items():
                d = dict(m)
                e = int(d.pop(c, 0))
                by.setdefault(e, {})[tuple(sorted(d.items()))] = v
            ev = {}
            od = {}
            for e, q in by.items():
                if e % 2 == 0:
                    ev = padd(ev, q)
                else:
                    od = padd(od, q)
            if ev or od:
                continue
            # polynomial division by (1 - c^2): synthetic on descending powers
            deg = max(by)
            quo = {}
            work = {e: dict(q) for e, q in by.items()}
            for e in range(deg, 1, -1):
                q = work.pop(e, {})
                if q:
                    quo[e - 2] = pneg(q)
                    work[e - 2] = padd(work.get(e - 2, {}), q)
            if any(work.values()):
                continue
            r = {}
            for e, q in quo.items():
                r = padd(r, pmul(q, pvar(c, e) if e else P1))
            p = r
            outl.append(ATOMS[c].aux)
            hit = True
            break
        if not hit:
            break
    return p, outl


def atom_pow(ctx, a, e, q):
    """(a^e)^q -> (poly, True) or (None, False) if it must stay under the root"""
    if q.denominator % 2 == 1:
        return _reduce(Fraction(1), {a: e * q}), True
    s = ctx.s_atom(a)
    k = ATOMS[a].kind
    if k == "Q" and (e.denominator % 2 == 0):
        return _reduce(Fraction(1), {a: e * q}), True
    if s & NEG == 0 or k in ("prime", "pi", "exp", "abs"):
        return _reduce(Fraction(1), {a: e * q}), True
    if e.denominator == 1 and int(e) % 2 == 0:
        if k == "Q":
            ab = pabs(ctx, ATOMS[a].poly)
            return ppow(ctx, ab, e * q), True
        ab = pabs(ctx, pvar(a))
        return ppow(ctx, ab, e * q), True
    if k in ("sym", "loop", "fn") and e == 1:
        return _reduce(Fraction(1), {a: q}), True if s == ALL and k == "sym" else (None, False)[1]
    return None, False


def mono_pow(ctx, p, q):
    (m, c), = p.items()
    if q.denominator == 1:
        r = _reduce(c ** int(q), {a: e * q for a, e in m})
        return r
    if c < 0:
        s = ctx.s_mono(m, Fraction(1))
        if s == NEG and len(m) == 1:
            return const_pow(-c, q) if False else pmul(const_pow(-c, q), pvar(Qatom({m: Fraction(-1)}), q))
        if q.denominator % 2 == 1:
            r = mono_pow(ctx, {m: -c}, q)
            return pneg(r) if q.numerator % 2 else r
        return pmul(const_pow(-c, q), pvar(Qatom({m: Fraction(-1)}), q))
    r = const_pow(c, q)
    rest = {}
    for a, e in m:
        x, ok = atom_pow(ctx, a, e, q)
        if x is not None:
            r = pmul(r, x)
        else:
            rest[a] = e
    if rest:
        if len(rest) == 1 and list(rest.values())[0] == 1:
            (a, e), = rest.items()
            r = pmul(r, _reduce(Fraction(1), {a: q}))
        else:
            r = pmul(r, _reduce(Fraction(1), {Qatom({tuple(sorted(rest.items())): Fraction(1)}): q}))
    return r


def pabs(ctx, p):
    s = ctx.s_poly(p)
    if s & NEG == 0:
        return p
    if s & POS == 0:
        return pneg(p)
    if len(p) == 1:
        (m, c), = p.items()
        r = pconst(abs(c))
        for a, e in m:
            sa = ctx.s_atom(a)
            if sa & NEG == 0 or e.denominator % 2 == 0 or (e.denominator == 1 and int(e) % 2 == 0):
                r = pmul(r, _reduce(Fraction(1), {a: e}))
            elif sa & POS == 0:
                r = pneg(pmul(r, _reduce(Fraction(1), {a: e}))) if e.denominator == 1 else pmul(r, pvar(a, e))
            else:
                b = pvar(a)
                ab = atom("abs", pkey(b), lambda: complex(abs(ATOMS[a].val)), poly=b)
                r = pmul(r, _reduce(Fraction(1), {ab: e}))
        return r
    coef, mono, prim = content(p)
    r = pconst(coef)
    if mono:
        r = pmul(r, pabs(ctx, {tuple(sorted(mono.items())): Fraction(1)}))
        return pmul(r, pabs(ctx, prim))
    if lead_sign(prim) < 0:
        prim = pneg(prim)
    prim = canon(prim)
    ab = atom("abs", pkey(prim), lambda: complex(abs(pval(prim))), poly=prim)
    return pmul(r, pvar(ab))


INTVAL = ("floor", "ceil", "round", "trunc")


def trig(ctx, p):
    """(cos p, sin p) as polys"""
    if not p:
        return P1, {}
    terms = list(p.items())
    quarter = Fraction(0)
    rest = []
    for m, c in terms:
        if m == ((A_PI, Fraction(1)),):
            quarter += c * 2
        elif len(m) == 2 and dict(m).get(A_PI) == 1 and c.denominator == 1 and int(c) % 2 == 0 and \
                any(ATOMS[a].kind == "fn" and ATOMS[a].data[0] in INTVAL and e == 1 for a, e in m):
            continue
        else:
            rest.append((m, c))
    # constant pi multiples
    k = math.floor(quarter)
    fr = quarter - k
    if fr != 0:
        x = pi_frac(fr)
        if x is None:
            pp = {((A_PI, Fraction(1)),): fr / 2}
            ca, sa = trig_atoms(pp)
            cq, sq = pvar(ca), pvar(sa)
        else:
            cq, sq = x
    else:
        cq, sq = P1, {}
    for _ in range(k % 4):
        cq, sq = pneg(sq), cq
    # mod terms
    exp = []
    for m, c in rest:
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            A = ATOMS[m[0][0]]
            if A.kind == "fn" and A.data[0] == "mod":
                md = A.aux[1]
                if len(md) == 1:
                    (mm, cc), = md.items()
                    if mm == ((A_PI, Fraction(1)),) and (c * cc).denominator == 1 and int(c * cc) % 2 == 0:
                        exp.append((A.aux[0], c))
                        continue
        exp.append(({m: Fraction(1)}, c))
    flat = []
    for q, c in exp:
        if len(q) == 1 and list(q.values())[0] == 1:
            flat.append((list(q)[0], c))
        else:
            # nested sum from a mod: combine recursively
            c2, s2 = trig(ctx, pscale(q, c))
            cq, sq = psub(pmul(cq, c2), pmul(sq, s2)), padd(pmul(sq, c2), pmul(cq, s2))
    rest = flat
    if len(rest) > 3 or any(abs(c.numerator) > 8 for m, c in rest):
        pp = {}
        for m, c in rest:
            pp[m] = c
        s = lead_sign(pp)
        ca, sa = trig_atoms(pp if s > 0 else pneg(pp))
        c2, s2 = pvar(ca), pscale(pvar(sa), s)
        return psub(pmul(cq, c2), pmul(sq, s2)), padd(pmul(sq, c2), pmul(cq, s2))
    for m, c in rest:
        c2, s2 = trig_term(ctx, m, c)
        cq, sq = psub(pmul(cq, c2), pmul(sq, s2)), padd(pmul(sq, c2), pmul(cq, s2))
    return cq, sq


def pi_frac(fr):
    h = pconst(Fraction(1, 2))
    r3 = pscale(const_pow(Fraction(3), Fraction(1, 2)), Fraction(1, 2))
    r2 = pscale(const_pow(Fraction(2), Fraction(1, 2)), Fraction(1, 2))
    return {Fraction(1, 2): (r2, r2), Fraction(1, 3): (r3, h), Fraction(2, 3): (h, r3)}.get(fr)


def trig_atoms(p):
    p = canon(p)
    k = pkey(p)
    ca = atom("cos", k, lambda: cmath.cos(pval(p)), poly=p)
    sa = atom("sin", k, lambda: cmath.sin(pval(p)), poly=p, aux=ca)
    ATOMS[ca].aux = sa
    return ca, sa


def trig_term(ctx, m, c):
    A = ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
    n = None
    if A is not None and A.kind == "fn" and c.denominator == 1:
        nm = A.data[0]
        if nm == "arccos":
            t = A.aux[0]
            base = (t, ppow(ctx, psub(P1, pmul(t, t)), Fraction(1, 2)))
            n = int(c)
        elif nm == "arcsin":
            t = A.aux[0]
            base = (ppow(ctx, psub(P1, pmul(t, t)), Fraction(1, 2)), t)
            n = int(c)
        elif nm == "arctan":
            t = A.aux[0]
            d = ppow(ctx, padd(P1, pmul(t, t)), Fraction(-1, 2))
            base = (d, pmul(t, d))
            n = int(c)
        elif nm == "arctan2":
            y, x = A.aux
            d = ppow(ctx, padd(pmul(x, x), pmul(y, y)), Fraction(-1, 2))
            base = (pmul(x, d), pmul(y, d))
            n = int(c)
        if n is not None:
            # idempotent canonical simplification of products with roots
            base = (simp(base[0]), simp(base[1]))
    if n is None:
        D = ctx.tden.get(m, 1)
        if D % c.denominator:
            raise NeedDen(m, D * c.denominator // math.gcd(D, c.denominator))
        n = int(c * D)
        ca, sa = trig_atoms({m: Fraction(1, D)})
        if ca in ctx.zero_atoms:
            base = ({}, pvar(sa))
        else:
            base = (pvar(ca), pvar(sa))
    if sa_zero(ctx, base):
        base = (base[0], {})
    s = 1 if n >= 0 else -1
    n = abs(n)
    cc, ss = P1, {}
    for _ in range(n):
        cc, ss = psub(pmul(cc, base[0]), pmul(ss, base[1])), padd(pmul(ss, base[0]), pmul(cc, base[1]))
    return cc, pscale(ss, s)


def sa_zero(ctx, base):
    p = base[1]
    return len(p) == 1 and any(a in ctx.zero_atoms for a, e in list(p)[0])


def simp(p):
    """try to write p with fewer terms by clearing Q denominators exactly (P * Q_P^-1 -> 1)"""
    if len(p) <= 1:
        return p
    for a in sorted({a for m in p for a, e in m if e < 0 and ATOMS[a].kind == "Q"}, reverse=True):
        q = ATOMS[a].poly
        try:
            t = {}
            rest = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(a, Fraction(0))
                rest.setdefault(e, {})[tuple(sorted((x, y) for x, y in d.items() if x != a))] = c
            new = {}
            changed = False
            for e, pp in rest.items():
                r = exact_div(pp, q) if e < 0 else None
                if r is not None:
                    new = padd(new, pmul(r, _reduce(Fraction(1), {a: e + 1})) if e + 1 != 0 else r)
                    changed = True
                else:
                    new = padd(new, pmul(pp, _reduce(Fraction(1), {a: e})) if e != 0 else pp)
            if changed and len(new) <= len(p):
                p = new
        except Blowup:
            pass
    return p


def exact_div(p, q):
    """p / q if exact (leading-term division), else None"""
    if not p:
        return {}
    lq = max(q)
    inv = tuple((a, -e) for a, e in lq)
    r, quo = dict(p), {}
    for _ in range(200):
        if not r:
            return quo
        lm = max(r)
        t = pmul({lm: r[lm]}, {inv: 1 / q[lq]})
        if len(t) != 1:
            return None
        if any(e < 0 and ATOMS[a].kind not in ("Q",) for a, e in list(t)[0]):
            (tm, tc), = t.items()
            return None
        quo = padd(quo, t)
        r2 = psub(r, pmul(t, q))
        if len(r2) > 3 * len(p) + 20:
            return None
        if lm in r2:
            return None
        r = r2
    return None


def exp_poly(ctx, p):
    if not p:
        return P1
    if len(p) > 3:
        s = lead_sign(p)
        q = canon(p if s > 0 else pneg(p))
        a = atom("exp", pkey(q), lambda: cmath.exp(pval(q)), poly=q)
        return pvar(a, s)
    r = P1
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log":
            r = pmul(r, ppow(ctx, ATOMS[m[0][0]].poly, c))
            continue
        q = {m: Fraction(1)}
        a = atom("exp", pkey(q), lambda q=q: cmath.exp(pval(q)), poly=q)
        r = pmul(r, pvar(a, c))
    return r


def log_poly(ctx, p):
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(ctx.s_atom(a) == POS or ATOMS[a].kind in ("exp", "prime", "pi") or (ATOMS[a].kind == "Q" and e.denominator % 2 == 0) for a, e in m):
            r = {}
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                if n > 1:
                    for q, e in factorint(n).items():
                        r = padd(r, pscale(pvar(logatom(pvar(a_prime(q)) if False else pconst(q))), s * e))
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "exp":
                    r = padd(r, pscale(A.poly, e))
                elif A.kind == "prime":
                    r = padd(r, pscale(pvar(logatom(pconst(A.data))), e))
                elif A.kind == "Q":
                    r = padd(r, pscale(pvar(logatom(A.poly)), e))
                else:
                    r = padd(r, pscale(pvar(logatom(pvar(a))), e))
            return r
    return pvar(logatom(p))


def logatom(p):
    p = canon(p)
    return atom("log", pkey(p), lambda: cmath.log(pval(p)), poly=p)


_FV = {"arctan": cmath.atan, "arcsin": cmath.asin, "arccos": cmath.acos, "arcsinh": cmath.asinh,
       "arccosh": cmath.acosh, "arctanh": cmath.atanh,
       "floor": lambda z: complex(math.floor(z.real)), "ceil": lambda z: complex(math.ceil(z.real)),
       "round": lambda z: complex(round(z.real)), "trunc": lambda z: complex(math.trunc(z.real)),
       "arctan2": lambda y, x: complex(math.atan2(y.real, x.real)),
       "mod": lambda a, b: complex(a.real % b.real) if b.real else complex(0.77)}
ODD = ("arctan", "arcsin", "arcsinh", "arctanh")


def fnatom(name, *ps):
    ps = tuple(canon(p) for p in ps)
    f = _FV.get(name)

    def v():
        if f is None:
            return complex(random.Random(repr((name, [pval(p) for p in ps]))).random() + 0.2)
        return f(*[pval(p) for p in ps])
    return atom("fn", (name,) + tuple(pkey(p) for p in ps), v, poly=ps[0] if ps else None, aux=ps)


def to_poly(ctx, n):
    memo = ctx.memo
    if n.id in memo:
        return memo[n.id]
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x in ctx.extra:
            memo[x.id] = ctx.extra[x]
            stack.pop()
            continue
        if x.op == "loop":
            memo[x.id] = pvar(atom("loop", x.id, lambda: complex(random.Random("L%d" % x.id).random() + 0.4)))
            stack.pop()
            continue
        if x.op == "sel":
            c = truth(ctx, x.args[0])
            if c is None:
                if not ctx.atom_mode:
                    raise NeedSplit(pick_split(ctx, x.args[0]))
                todo = [a for a in x.args[1:] if a.id not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                memo[x.id] = sel_atom(ctx, x.args[0], memo[x.args[1].id], memo[x.args[2].id])
            else:
                t = x.args[1] if c else x.args[2]
                if t.id not in memo:
                    stack.append(t)
                    continue
                memo[x.id] = memo[t.id]
            stack.pop()
            continue
        if N.is_bool(x):
            c = truth(ctx, x)
            if c is None:
                if not ctx.atom_mode:
                    raise NeedSplit(pick_split(ctx, x))
                memo[x.id] = sel_atom(ctx, x, P1, {})
            else:
                memo[x.id] = P1 if c else {}
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        if ctx.deadline and time.process_time() > ctx.deadline:
            raise Blowup()
        memo[x.id] = conv(ctx, x, [memo[a.id] for a in x.args])
        stack.pop()
    return memo[n.id]


def conv(ctx, x, a):
    o = x.op
    if o == "const":
        return pconst(x.attr)
    if o == "pi":
        return pvar(A_PI)
    if o == "sym":
        s = ctx.sub.get(x.attr)
        return s if s is not None else pvar(a_sym(x.attr))
    if o in ("inf", "neginf", "nan"):
        p = pvar(atom("special", "nan" if o == "nan" else "inf", lambda: complex(1.2e3 if o != "nan" else 3.3e3)))
        return pneg(p) if o == "neginf" else p
    if o == "mark":
        return a[0]
    if o == "add":
        return padd(a[0], a[1])
    if o == "sub":
        return psub(a[0], a[1])
    if o == "neg":
        return pneg(a[0])
    if o == "mul":
        return pmul(a[0], a[1])
    if o == "div":
        return pmul(a[0], ppow(ctx, a[1], Fraction(-1)))
    if o == "pow":
        e = a[1]
        if not e or (len(e) == 1 and () in e):
            return ppow(ctx, a[0], e.get((), Fraction(0)))
        if len(a[0]) == 1 and all(ATOMS[q].kind == "exp" for q, _ in list(a[0])[0]) and list(a[0].values())[0] == 1:
            (m, _), = a[0].items()
            arg = {}
            for q, ee in m:
                arg = padd(arg, pscale(pmul(ATOMS[q].poly, e), ee))
            return exp_poly(ctx, arg)
        return pvar(fnatom("pow", a[0], e))
    if o == "opq":
        return pvar(atom("opq", (x.attr,) + tuple(pkey(canon(p)) for p in a),
                         lambda: complex(random.Random(repr((x.attr, [pval(p) for p in a]))).random() + .3)))
    if o == "fn":
        f = x.attr
        u = a[0]
        if f == "sin":
            return trig(ctx, u)[1]
        if f == "cos":
            return trig(ctx, u)[0]
        if f == "tan":
            c, s = trig(ctx, u)
            return pmul(s, ppow(ctx, c, Fraction(-1)))
        if f in ("sinh", "cosh", "tanh"):
            if len(u) == 1 and list(u.values())[0] in (1, -1) and len(list(u)[0]) == 1:
                (aa, ee), = list(u)[0]
                if ee == 1 and ATOMS[aa].kind == "fn" and ATOMS[aa].data[0] == "arcsinh":
                    t = ATOMS[aa].aux[0]
                    sg = list(u.values())[0]
                    ch = ppow(ctx, padd(P1, pmul(t, t)), Fraction(1, 2))
                    return {"sinh": pscale(t, sg), "cosh": ch, "tanh": pscale(pmul(t, ppow(ctx, ch, Fraction(-1))), sg)}[f]
            p, m = exp_poly(ctx, u), exp_poly(ctx, pneg(u))
            sh, ch = pscale(psub(p, m), Fraction(1, 2)), pscale(padd(p, m), Fraction(1, 2))
            return sh if f == "sinh" else ch if f == "cosh" else pmul(sh, ppow(ctx, ch, Fraction(-1)))
        if f == "exp":
            return exp_poly(ctx, u)
        if f == "expm1":
            return psub(exp_poly(ctx, u), P1)
        if f == "log":
            return log_poly(ctx, u)
        if f == "log1p":
            return log_poly(ctx, padd(u, P1))
        if f == "abs":
            if not ctx.atom_mode:
                s = ctx.s_poly(u)
                if s & NEG and s & POS:
                    k, _ = split_key(ctx, u)
                    if k is not None and len(k) == 1:
                        raise NeedSplit(k)
            return pabs(ctx, u)
        if f == "sign":
            s = ctx.s_poly(u)
            if s == POS:
                return P1
            if s == NEG:
                return pconst(-1)
            if s == ZER:
                return {}
            if not ctx.atom_mode:
                k, _ = split_key(ctx, u)
                if k is not None:
                    raise NeedSplit(k)
            return pmul(u, ppow(ctx, pabs(ctx, u), Fraction(-1)))
        if f in ("floor", "ceil", "trunc") and set(u) <= {()}:
            return pconst({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[f](u.get((), 0)))
        if f in ("max", "min"):
            d = pabs(ctx, psub(a[0], a[1]))
            s = padd(a[0], a[1])
            return pscale(padd(s, d) if f == "max" else psub(s, d), Fraction(1, 2))
        if f == "cbrt":
            return ppow(ctx, u, Fraction(1, 3))
        if f in ODD:
            if not u:
                return {}
            if lead_sign(u) < 0:
                return pneg(pvar(fnatom(f, pneg(u))))
            return pvar(fnatom(f, u))
        if f == "arccos":
            if u and lead_sign(u) < 0:
                return psub(pvar(A_PI), pvar(fnatom(f, pneg(u))))
            return pvar(fnatom(f, u))
        if f == "arctan2":
            y, z = a
            # common positive content
            if y and z:
                cy, my, _ = content(y)
                cz, mz, _ = content(z)
                d = {}
                for t in set(my) | set(mz):
                    e1, e2 = my.get(t, Fraction(0)), mz.get(t, Fraction(0))
                    e = min(e1, e2)
                    if e != 0 and (ctx.s_atom(t) == POS or e.denominator % 2 == 0):
                        d[t] = -e
                inv = {tuple(sorted(d.items())): 1 / cz}
                y, z = pmul(y, inv), pmul(z, inv)
            sg = 1
            if y and lead_sign(y) < 0:
                y, sg = pneg(y), -1
            if not y and ctx.s_poly(z) == POS:
                return {}
            return pscale(pvar(fnatom("arctan2", y, z)), sg)
        return pvar(fnatom(f, *a))
    raise Blowup()


def truth(ctx, n):
    """three-valued truth of a boolean node in this region"""
    k = ("t", n.id)
    if k in ctx.memo:
        return ctx.memo[k]
    r = _truth(ctx, n)
    ctx.memo[k] = r
    return r


def _truth(ctx, n):
    o = n.op
    if o == "bool":
        return n.attr
    if o == "mark":
        return truth(ctx, n.args[0])
    if o == "cmp":
        p = psub(to_poly(ctx, n.args[0]), to_poly(ctx, n.args[1]))
        s = ctx.s_poly(p)
        if n.attr == "<":
            return True if s == NEG else False if not s & NEG else None
        if n.attr == "<=":
            return True if not s & POS else False if s == POS else None
        return True if s == ZER else False if not s & ZER else None
    if o == "not":
        r = truth(ctx, n.args[0])
        return None if r is None else not r
    if o in ("and", "or"):
        u, v = truth(ctx, n.args[0]), truth(ctx, n.args[1])
        z = o == "or"
        if u is z or v is z:
            return z
        if u is None or v is None:
            return None
        return not z
    if o == "beq":
        u, v = truth(ctx, n.args[0]), truth(ctx, n.args[1])
        return None if u is None or v is None else u == v
    if o == "sel":
        c = truth(ctx, n.args[0])
        if c is None:
            u, v = truth(ctx, n.args[1]), truth(ctx, n.args[2])
            return u if u is v else None
        return truth(ctx, n.args[1] if c else n.args[2])
    if o == "fn" and n.attr in ("isnan", "isinf"):
        return False          # real-valued reading
    if o == "fn" and n.attr == "isfinite":
        return True
    if o == "sym":
        return ctx.masks.get(("b", n.attr))
    return None


def pick_split(ctx, n):
    o = n.op
    if o == "cmp":
        p = psub(to_poly(ctx, n.args[0]), to_poly(ctx, n.args[1]))
        k, _ = split_key(ctx, p)
        return k
    if o == "sym":
        return ("b", n.attr)
    for a in n.args:
        if N.is_bool(a) and truth(ctx, a) is None:
            return pick_split(ctx, a)
    return None


def sel_atom(ctx, c, p, q):
    if pkey(p) == pkey(q):
        return p
    d = psub(p, q)
    try:
        if is_zero(d):
            return p
    except Blowup:
        pass
    k = cond_key(ctx, c)
    if k[0] == "not":
        k, p, q = k[1], q, p
    p, q = canon(p), canon(q)
    a = atom("sel", (k, pkey(p), pkey(q)), lambda: complex(random.Random(repr((k, pval(p), pval(q)))).random() + .25))
    return pvar(a)


def cond_key(ctx, n):
    o = n.op
    t = truth(ctx, n)
    if t is not None:
        return ("bool", t)
    if o == "cmp":
        p = psub(to_poly(ctx, n.args[0]), to_poly(ctx, n.args[1]))
        k, s = split_key(ctx, p, dry=True)
        if k is None:
            k, s = canon(p), 1
        kk = pkey(k)
        if n.attr == "==":
            return ("==", kk)
        if n.attr == "<":
            return ("<", kk) if s > 0 else ("not", ("<=", kk))
        return ("<=", kk) if s > 0 else ("not", ("<", kk))
    if o == "not":
        k = cond_key(ctx, n.args[0])
        return k[1] if k[0] == "not" else ("not", k)
    if o in ("and", "or", "beq"):
        ks = sorted((cond_key(ctx, a) for a in n.args), key=repr)
        return (o,) + tuple(ks)
    if o == "sym":
        return ("b", n.attr)
    return ("n", n.id)


def refine(ctx, key):
    """child contexts for a split on key"""
    out = []
    if isinstance(key, tuple):
        for v in (True, False):
            c = ctx.copy()
            c.masks[key] = v
            c.desc.append("%s=%s" % (key[1], v))
            out.append(c)
        return out
    cur = ctx.s_poly(key)
    nm = pshow(key)
    single = len(key) == 1 and len(list(key)[0]) == 1 and list(key)[0][0][1] == 1
    for s, t in ((NEG, "<0"), (ZER, "=0"), (POS, ">0")):
        if not cur & s:
            continue
        c = ctx.copy()
        c.desc.append(nm + t)
        c.masks[pkey(key)] = s
        if single:
            a = list(key)[0][0][0]
            A = ATOMS[a]
            if A.kind == "sym":
                c.symmask[A.data] = s
                if s == ZER:
                    c.sub = {k: sub_sym(v, a, {}) for k, v in c.sub.items()}
                    c.sub[A.data] = {}
                elif s == NEG:
                    nn = A.data + "~"
                    c.symmask[nn] = POS
                    lo, hi = c.bounds.get(A.data, (None, None))
                    c.bounds[nn] = (None if hi is None else -hi, None if lo is None else -lo)
                    new = pneg(pvar(a_sym(nn)))
                    c.sub = {k: sub_sym(v, a, new) for k, v in c.sub.items()}
                    c.sub[A.data] = new
            elif s == ZER:
                c.zero_atoms.add(a)
        else:
            lu = linear_uni(key)
            if lu is not None and ATOMS[lu[0]].kind == "sym":
                a, cc, d = lu
                name = ATOMS[a].data
                root = -d / cc
                lo, hi = c.bounds.get(name, (None, None))
                if s == ZER:
                    c.sub = {k: sub_sym(v, a, pconst(root)) for k, v in c.sub.items()}
                    c.sub[name] = pconst(root)
                elif (s == POS) == (cc > 0):
                    c.bounds[name] = (root if lo is None else max(lo, root), hi)
                else:
                    c.bounds[name] = (lo, root if hi is None else min(hi, root))
                b = c.bounds.get(name)
                if b and b[0] is not None and b[1] is not None and b[0] >= b[1]:
                    continue
            elif s == ZER:
                # solve for a symbol occurring linearly with constant coefficient
                for m, v in key.items():
                    if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sym":
                        a = m[0][0]
                        if all(x != a for mm in key for x, _ in mm if mm != m) and not any(
                                uses(ATOMS[x], a) for mm in key for x, _ in mm):
                            rest = {mm: vv for mm, vv in key.items() if mm != m}
                            new = pscale(rest, -1 / v)
                            c.sub = {k: sub_sym(w, a, new) for k, w in c.sub.items()}
                            c.sub[ATOMS[a].data] = new
                            break
        c.memo = {}
        out.append(c)
    return out


def uses(A, a):
    if A.kind == "sym":
        return False
    if A.poly is not None:
        return any(x == a or uses(ATOMS[x], a) for m in A.poly for x, _ in m)
    return A.kind in ("sel", "loop", "opq")


def sub_sym(p, a, new):
    """replace plain occurrences of sym atom a in poly p (positive integer exponents only)"""
    r = {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(a, None)
        t = {tuple(sorted(d.items())): c}
        if e is not None:
            if e.denominator == 1 and e > 0:
                t = pmul(t, ppow_int(new, int(e)))
            else:
                t = pmul(t, pvar(a, e))
        r = padd(r, t)
    return r


class Result:
    def __init__(self, ok, regions, open_regions, note=""):
        self.ok, self.regions, self.open, self.note = ok, regions, open_regions, note


def prove_zero(node, ctx, limit=200, budget=20.0):
    """partition the input space until node == 0 is proved everywhere"""
    return prove(lambda c: is_zero(to_poly(c, node), c.deadline), ctx, limit, budget)


def prove(test, ctx, limit=200, budget=20.0):
    """test(ctx) -> bool, may raise NeedSplit / NeedDen / Blowup"""
    dl = time.process_time() + budget
    work = [ctx.copy()]
    n = 0
    openr = []
    while work:
        c = work.pop()
        c.deadline = dl
        n += 1
        if n > limit or time.process_time() > dl:
            openr.append(c)
            openr.extend(work)
            break
        try:
            if test(c):
                continue
            if c.atom_mode:
                c2 = c.copy()
                c2.atom_mode = False
                work.append(c2)
                n -= 1
            else:
                openr.append(c)
        except NeedSplit as e:
            if e.key is None:
                openr.append(c)
            else:
                work.extend(refine(c, e.key))
        except NeedDen as e:
            c2 = c.copy()
            c2.tden[e.m] = e.d
            work.append(c2)
        except (Blowup, RecursionError, OverflowError):
            if c.atom_mode:
                c2 = c.copy()
                c2.atom_mode = False
                work.append(c2)
            else:
                openr.append(c)
    return Result(not openr, n, openr)
