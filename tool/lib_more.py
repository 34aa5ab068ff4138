"""Further models of jax, jax.numpy, jax.lax, jax.nn and jax.tree functions (see lib.py)."""
from fractions import Fraction
import math
import numpy as np

import nodes as N
from values import *
import lib
from lib import impl, jn, asarr, emap, elementwise, _reg_elem, _reduce, _wrap_np, axis_norm, raise_, TABLE, JNP, jres, promote, arr_getitem, C, shape_of, cast, dtype_name

BIG = 6


def _inum(I, v):
    return I.index_int(v)


# ---- order statistics
def arg_of(best_lt):
    def f(v):
        idx, best = C(0), v[0]
        for j, x in enumerate(v[1:], 1):
            c = best_lt(best, x)
            idx, best = N.sel(c, C(j), idx, True), N.sel(c, x, best, True)
        return idx
    return f


def _arg(lt):
    def g(I, a, axis=None, out=None, keepdims=None, **kw):
        x = asarr(I, a)
        ax = axis
        if ax is None:
            n = x.size
        else:
            n = x.shape[axis_norm(I, ax, x.ndim)]
        if n > 16:
            raise Incomplete("long argmax/argmin (at %s)" % I.loc())
        if isinstance(ax, Arr):
            ax = _inum(I, ax)
        return _reduce(I, x, ax, bool(keepdims), arg_of(lt), dt="i")
    return g


for _n, _lt in (("argmax", lambda b, x: N.cmp("<", b, x)), ("argmin", lambda b, x: N.cmp("<", x, b))):
    TABLE[JNP + _n] = TABLE[JNP + "nan" + _n] = _arg(_lt)
    TABLE["jax.lax." + _n] = (lambda g: lambda I, operand, axis, index_dtype=None: g(I, operand, axis))(_arg(_lt))


def sort_list(v):
    v = list(v)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            v[j], v[j + 1] = N.fn("min", v[j], v[j + 1]), N.fn("max", v[j], v[j + 1])
    return v


def order_list(v):
    """stable ascending permutation as index terms"""
    n = len(v)
    rank = []
    for i in range(n):
        r = C(0)
        for j in range(n):
            if j != i:
                c = N.cmp("<=", v[j], v[i]) if j < i else N.cmp("<", v[j], v[i])
                r = N.add(r, N.sel(c, C(1), C(0), True))
        rank.append(r)
    out = []
    for k in range(n):
        t = C(n - 1)
        for i in range(n - 2, -1, -1):
            t = N.sel(N.cmp("==", rank[i], C(k)), C(i), t, True)
        out.append(t)
    return out


def along(I, a, axis, f, dt=None, flat=False):
    x = asarr(I, a)
    if axis is None:
        x = Arr(x.a.reshape(-1), x.dt)
        axis = 0
    ax = axis_norm(I, axis, x.ndim)
    t = np.moveaxis(x.a, ax, -1)
    rows = [f(list(t[i])) for i in np.ndindex(*t.shape[:-1])]
    n = len(rows[0]) if rows else t.shape[-1]
    o = np.empty(t.shape[:-1] + (n,), dtype=object)
    for i, r in zip(np.ndindex(*t.shape[:-1]), rows):
        for k in range(n):
            o[i + (k,)] = r[k]
    return jres(I, np.moveaxis(o, -1, ax), dt or x.dt, [x])


def _cap(n, what, I, cap=4):
    if n > cap:
        raise Incomplete("%s of %d elements (at %s)" % (what, n, I.loc()))


@jn("argsort")
def j_argsort(I, a, axis=-1, descending=False, **kw):
    x = asarr(I, a)
    _cap(x.size if axis is None else x.shape[axis_norm(I, axis, x.ndim)], "argsort", I)
    if descending:
        return along(I, x, axis, lambda v: order_list([N.neg(q) for q in v]), "i")
    return along(I, x, axis, order_list, "i")


@jn("median")
def j_median(I, a, axis=None, keepdims=False, **kw):
    def f(v):
        _cap(len(v), "median", I, 5)
        s = sort_list(v)
        n = len(s)
        return s[n // 2] if n % 2 else N.div(N.add(s[n // 2 - 1], s[n // 2]), N.TWO)
    return _reduce(I, a, axis, keepdims, f, dt="f")


@jn("searchsorted")
def j_searchsorted(I, a, v, side="left", **kw):
    x, y = asarr(I, a), asarr(I, v)
    if x.ndim != 1 or x.size > 32:
        raise Incomplete("searchsorted (at %s)" % I.loc())

    def f(q):
        r = C(0)
        for e in x.a:
            r = N.add(r, N.sel(N.cmp("<" if side == "left" else "<=", e, q), C(1), C(0), True))
        return r
    return jres(I, emap(f, y.a), "i", [x, y])


@jn("digitize")
def j_digitize(I, x, bins, right=False, **kw):
    return j_searchsorted(I, bins, x, "left" if right else "right")


@jn("interp")
def j_interp(I, x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Incomplete("interp with a period")
    x, xp, fp = asarr(I, x), asarr(I, xp), asarr(I, fp)
    n = xp.size
    if xp.ndim != 1 or n > 16:
        raise Incomplete("interp (at %s)" % I.loc())
    lo = asarr(I, left).item() if left is not None else fp.a[0]
    hi = asarr(I, right).item() if right is not None else fp.a[n - 1]

    def f(q):
        r = hi
        r = N.sel(N.cmp("<=", q, xp.a[n - 1]), fp.a[n - 1], r, True)
        for k in range(n - 2, -1, -1):
            s = N.div(N.sub(fp.a[k + 1], fp.a[k]), N.sub(xp.a[k + 1], xp.a[k]))
            r = N.sel(N.cmp("<", q, xp.a[k + 1]), N.add(fp.a[k], N.mul(s, N.sub(q, xp.a[k]))), r, True)
        return N.sel(N.cmp("<", q, xp.a[0]), lo, r, True)
    return jres(I, emap(f, x.a), "f", [x, xp, fp])


def pick(vals, it):
    """vals[it] for an index term (negative indices wrap once, the rest clamps)"""
    n = len(vals)
    if it.op == "const":
        k = int(it.attr)
        return vals[max(0, min(n - 1, k + n if k < 0 else k))]
    r = vals[n - 1]
    for j in range(n - 2, -1, -1):
        c = N.lor(N.cmp("==", it, C(j)), N.cmp("==", it, C(j - n)))
        if j == 0:
            c = N.lor(c, N.cmp("<=", it, C(-n)))
        r = N.sel(c, vals[j], r, True)
    return r


@jn("take_along_axis")
def j_take_along(I, arr, indices, axis=-1, **kw):
    x, k = asarr(I, arr), asarr(I, indices)
    if axis is None:
        x, axis = Arr(x.a.reshape(-1), x.dt), 0
    ax = axis_norm(I, axis, x.ndim)
    if x.ndim != k.ndim:
        raise_(I, "ValueError", "take_along_axis: dimensions differ")
    t, q = np.moveaxis(x.a, ax, -1), np.moveaxis(k.a, ax, -1)
    sh = np.broadcast_shapes(t.shape[:-1], q.shape[:-1])
    t, q = np.broadcast_to(t, sh + t.shape[-1:]), np.broadcast_to(q, sh + q.shape[-1:])
    o = np.empty(q.shape, dtype=object)
    for i in np.ndindex(*q.shape):
        o[i] = pick(list(t[i[:-1]]), q[i])
    return jres(I, np.moveaxis(o, -1, ax), x.dt, [x, k])


@jn("choose")
def j_choose(I, a, choices, **kw):
    k = asarr(I, a)
    cs = [asarr(I, c) for c in lib._seq(I, choices)]
    return jres(I, emap(lambda i, *v: pick(list(v), i), k.a, *[c.a for c in cs]), promote(cs)[0], [k] + cs)


@jn("isin")
def j_isin(I, e, t, invert=False, **kw):
    x, y = asarr(I, e, True), asarr(I, t, True)

    def f(q):
        r = N.FALSE
        for z in y.a.reshape(-1):
            r = N.lor(r, N.cmp("==", q, z))
        return N.lnot(r) if invert else r
    return jres(I, emap(f, x.a), "b", [x, y])


# ---- data-dependent shapes
def _dyn(nm):
    def g(I, *a, **kw):
        if kw.get("size") is None:
            lib.leak(I, "%s has a data-dependent shape" % nm, [list(a)])
        raise Incomplete("%s (at %s)" % (nm, I.loc()))
    return g


for _n in ("nonzero", "flatnonzero", "argwhere", "unique", "unique_values", "unique_all", "unique_counts", "unique_inverse", "extract", "compress", "union1d", "intersect1d",
           "setdiff1d", "setxor1d", "bincount", "trim_zeros"):
    if JNP + _n not in TABLE:
        TABLE[JNP + _n] = _dyn(_n)


# ---- elementwise
for _n, _f, _r in [
    ("logaddexp", lambda a, b: N.fn("log", N.add(N.fn("exp", a), N.fn("exp", b))), "float"),
    ("ldexp", lambda a, b: N.mul(a, N.power(N.TWO, b)), "float"),
    ("isposinf", lambda a: N.cmp("==", a, N.INF), "bool"), ("isneginf", lambda a: N.cmp("==", a, N.NINF), "bool"),
    ("isreal", lambda a: N.TRUE, "bool"), ("iscomplex", lambda a: N.FALSE, "bool"),
    ("imag", lambda a: N.ZERO, "same"), ("angle", lambda a: N.sel(N.cmp("<", a, N.ZERO), N.PI, N.ZERO, True), "float"),
]:
    _reg_elem(_n, _f, _r)


def _elem(path, f, rule="float"):
    TABLE[path] = lambda I, *xs, **kw: elementwise(I, f, xs, rule, path)


_sig = lambda x: N.div(N.ONE, N.add(N.ONE, N.fn("exp", N.neg(x))))
for _p, _f in [
    ("jax.nn.relu", lambda x: N.fn("max", x, N.ZERO)), ("jax.nn.relu6", lambda x: N.fn("min", N.fn("max", x, N.ZERO), C(6))),
    ("jax.nn.sigmoid", _sig), ("jax.lax.logistic", _sig), ("jax.scipy.special.expit", _sig),
    ("jax.nn.silu", lambda x: N.mul(x, _sig(x))), ("jax.nn.swish", lambda x: N.mul(x, _sig(x))),
    ("jax.nn.softplus", lambda x: N.fn("log", N.add(N.ONE, N.fn("exp", x)))), ("jax.nn.tanh", lambda x: N.fn("tanh", x)),
    ("jax.nn.hard_tanh", lambda x: N.fn("min", N.fn("max", x, C(-1)), N.ONE)), ("jax.nn.identity", lambda x: x),
    ("jax.nn.soft_sign", lambda x: N.div(x, N.add(N.ONE, N.fn("abs", x)))),
    ("jax.nn.leaky_relu", lambda x, s=C(Fraction(1, 100)): N.sel(N.cmp("<=", N.ZERO, x), x, N.mul(s, x))),
    ("jax.lax.exp2", lambda x: N.power(N.TWO, x)), ("jax.lax.log2", lambda x: N.div(N.fn("log", x), N.fn("log", N.TWO))),
    ("jax.lax.conj", lambda x: x), ("jax.lax.real", lambda x: x),
    ("jax.scipy.special.xlogy", lambda x, y: N.sel(N.cmp("==", x, N.ZERO), N.ZERO, N.mul(x, N.fn("log", y)), True)),
    ("jax.scipy.special.logit", lambda x: N.fn("log", N.div(x, N.sub(N.ONE, x)))),
]:
    if _p not in TABLE:
        _elem(_p, _f)


@impl("jax.scipy.special.factorial", "jax.scipy.special.gamma")
def s_factorial(I, n, exact=False):
    x = asarr(I, n)

    def f(q):
        if q.op != "const" or q.attr.denominator != 1 or q.attr < 0 or q.attr > 40:
            raise Incomplete("factorial of a variable")
        return C(math.factorial(int(q.attr)))
    return jres(I, emap(f, x.a), "f", [x])


TABLE["jax.scipy.special.gamma"] = lambda I, n: s_factorial(I, lib.binop(I, "Sub", asarr(I, n), 1))


@jn("modf")
def j_modf(I, x, out=None):
    t = elementwise(I, lambda a: N.fn("trunc", a), [x], "float")
    return (lib.binop(I, "Sub", asarr(I, x), t), t)


@jn("nextafter")
def j_nextafter(I, x, y):
    return elementwise(I, lambda a, b: a, [x, y], "float")


@impl("jax.nn.one_hot")
def n_one_hot(I, x, num_classes, **kw):
    x = asarr(I, x)
    n = _inum(I, num_classes)
    o = np.empty(x.shape + (n,), dtype=object)
    for i in np.ndindex(*x.shape):
        for k in range(n):
            o[i + (k,)] = N.sel(N.cmp("==", x.a[i], C(k)), N.ONE, N.ZERO, True)
    return jres(I, o, "f", [x])


# ---- shape
@jn("astype")
def j_astype(I, x, dtype, *a, **kw):
    return cast(I, asarr(I, x), dtype_name(dtype))


@jn("atleast_3d")
def j_atleast_3d(I, *xs):
    r = [_wrap_np(I, np.atleast_3d, asarr(I, x)) for x in xs]
    return r[0] if len(r) == 1 else LList(r)


def _split_at(ax1, ax):
    def g(I, a, n):
        x = asarr(I, a)
        return TABLE[JNP + "split"](I, x, n, ax1 if x.ndim == 1 else ax)
    return g


TABLE[JNP + "hsplit"], TABLE[JNP + "vsplit"], TABLE[JNP + "dsplit"] = _split_at(0, 1), _split_at(0, 0), _split_at(0, 2)


@jn("rollaxis")
def j_rollaxis(I, a, axis, start=0):
    return _wrap_np(I, np.rollaxis, asarr(I, a), _inum(I, axis), _inum(I, start))


@jn("rot90")
def j_rot90(I, m, k=1, axes=(0, 1)):
    return _wrap_np(I, np.rot90, asarr(I, m), _inum(I, k), tuple(_inum(I, q) for q in axes))


@jn("resize")
def j_resize(I, a, new_shape):
    return _wrap_np(I, np.resize, asarr(I, a), shape_of(I, new_shape))


def _tri(keep):
    def g(I, m, k=0):
        x = asarr(I, m)
        k = _inum(I, k)
        o = x.a.copy()
        for i in np.ndindex(*o.shape):
            if not keep(i[-2], i[-1], k):
                o[i] = N.ZERO
        return jres(I, o, x.dt, [x])
    return g


TABLE[JNP + "tril"] = _tri(lambda i, j, k: j <= i + k)
TABLE[JNP + "triu"] = _tri(lambda i, j, k: j >= i + k)


@jn("tri")
def j_tri(I, n, m=None, k=0, dtype=None):
    n = _inum(I, n)
    m = n if m is None else _inum(I, m)
    o = np.empty((n, m), dtype=object)
    for i in np.ndindex(n, m):
        o[i] = N.ONE if i[1] <= i[0] + k else N.ZERO
    return jres(I, o, dtype_name(dtype) if dtype is not None else "f", [])


@jn("diagflat")
def j_diagflat(I, v, k=0):
    x = asarr(I, v, True)
    return TABLE[JNP + "diag"](I, Arr(x.a.reshape(-1), x.dt, x.conc), k)


@jn("pad")
def j_pad(I, array, pad_width, mode="constant", constant_values=0, **kw):
    x = asarr(I, array)
    w = pad_width
    if mode not in ("constant", "edge", "wrap", "reflect", "symmetric"):
        raise Incomplete("pad mode")
    if not isinstance(w, (tuple, list)):
        w = [(_inum(I, w),) * 2] * x.ndim
    elif all(not isinstance(q, (tuple, list)) for q in w):
        w = [tuple(_inum(I, q) for q in w)] * x.ndim if len(w) == 2 else [(_inum(I, w[0]),) * 2] * x.ndim
    else:
        w = [tuple(_inum(I, z) for z in q) for q in w]
        if len(w) == 1:
            w = w * x.ndim
    w = [q * 2 if len(q) == 1 else q for q in w]
    try:
        k = np.pad(np.arange(x.size).reshape(x.shape), w, mode=mode, **({"constant_values": -1} if mode == "constant" else {}))
    except ValueError as e:
        raise_(I, "ValueError", "pad: %s" % e)
    c = asarr(I, constant_values)
    if c.size != 1:
        raise Incomplete("pad values")
    f = x.a.reshape(-1)
    o = np.empty(k.shape, dtype=object)
    for i in np.ndindex(*k.shape):
        o[i] = f[k[i]] if k[i] >= 0 else c.a.reshape(-1)[0]
    return jres(I, o, x.dt, [x])


@jn("insert")
def j_insert(I, arr, obj_, values, axis=None):
    x, v = asarr(I, arr), asarr(I, values, True)
    k = obj_ if isinstance(obj_, slice) else lib.const_index(I, asarr(I, obj_, True)) if not isinstance(obj_, int) else obj_
    try:
        r = np.insert(x.a, k, v.a if v.ndim else v.a.item(), axis=axis)
    except (ValueError, IndexError) as e:
        raise_(I, "ValueError", str(e))
    return jres(I, r, promote([x, v])[0], [x, v])


@jn("delete")
def j_delete(I, arr, obj_, axis=None, **kw):
    x = asarr(I, arr)
    k = obj_ if isinstance(obj_, slice) else lib.const_index(I, asarr(I, obj_, True)) if not isinstance(obj_, int) else obj_
    return _wrap_np(I, np.delete, x, k, axis)


@jn("indices")
def j_indices(I, dimensions, dtype=None, sparse=False):
    g = np.indices(shape_of(I, dimensions))
    return Arr(emap(lambda v: C(int(v)), g.astype(object)), "i", True)


@jn("cumulative_prod", "nancumprod")
def j_cumprod2(I, a, axis=None, **kw):
    return TABLE[JNP + "cumprod"](I, a, axis)


TABLE[JNP + "nancumsum"] = lambda I, a, axis=None, **kw: TABLE[JNP + "cumsum"](I, a, axis)


def _cum(f):
    def g(v):
        out = [v[0]]
        for q in v[1:]:
            out.append(f(out[-1], q))
        return out
    return g


def _lax_cum(f):
    def g(I, operand, axis=0, reverse=False):
        h = _cum(f)
        return along(I, operand, axis, (lambda v: h(v[::-1])[::-1]) if reverse else h)
    return g


TABLE["jax.lax.cumsum"], TABLE["jax.lax.cumprod"] = _lax_cum(N.add), _lax_cum(N.mul)
TABLE["jax.lax.cummax"], TABLE["jax.lax.cummin"] = _lax_cum(lambda a, b: N.fn("max", a, b)), _lax_cum(lambda a, b: N.fn("min", a, b))


@jn("trapezoid")
def j_trapezoid(I, y, x=None, dx=1, axis=-1):
    yy = asarr(I, y)
    ax = axis_norm(I, axis, yy.ndim)
    n = yy.shape[ax]
    if x is None:
        d = [asarr(I, dx).item()] * (n - 1)
    else:
        xx = asarr(I, x)
        if xx.ndim != 1:
            raise Incomplete("trapezoid")
        d = [N.sub(xx.a[i + 1], xx.a[i]) for i in range(n - 1)]

    def f(v):
        r = N.ZERO
        for i in range(n - 1):
            r = N.add(r, N.mul(d[i], N.div(N.add(v[i], v[i + 1]), N.TWO)))
        return r
    return _reduce(I, yy, ax, False, f, dt="f")


@jn("vander")
def j_vander(I, x, n=None, increasing=False, **kw):
    x = asarr(I, x)
    m = x.size if n is None else _inum(I, n)
    ps = range(m) if increasing else range(m - 1, -1, -1)
    o = np.empty((x.size, m), dtype=object)
    for i in range(x.size):
        for j, p in enumerate(ps):
            o[i, j] = N.power(x.a[i], C(p))
    return jres(I, o, x.dt, [x])


@jn("polymul", "convolve")
def j_polymul(I, a, b, mode="full", **kw):
    x, y = asarr(I, a), asarr(I, b)
    if mode != "full":
        raise Incomplete("convolve mode")
    o = [N.ZERO] * (x.size + y.size - 1)
    for i, p in enumerate(x.a):
        for j, q in enumerate(y.a):
            o[i + j] = N.add(o[i + j], N.mul(p, q))
    r = np.empty(len(o), dtype=object)
    r[:] = o
    return jres(I, r, promote([x, y])[0], [x, y])


@jn("polyadd")
def j_polyadd(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    n = max(x.size, y.size)
    p, q = [N.ZERO] * (n - x.size) + list(x.a), [N.ZERO] * (n - y.size) + list(y.a)
    r = np.empty(n, dtype=object)
    r[:] = [N.add(u, v) for u, v in zip(p, q)]
    return jres(I, r, promote([x, y])[0], [x, y])


@jn("polyder")
def j_polyder(I, p, m=1):
    x = asarr(I, p)
    c = list(x.a)
    for _ in range(_inum(I, m)):
        n = len(c)
        c = [N.mul(v, C(n - 1 - i)) for i, v in enumerate(c[:-1])]
    r = np.empty(len(c), dtype=object)
    r[:] = c
    return jres(I, r, x.dt, [x])


@jn("matvec")
def j_matvec(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    r = lib.matmul(I, x, Arr(y.a[..., None], y.dt, y.conc))
    return Arr(r.a[..., 0], r.dt, r.conc)


@jn("vecmat")
def j_vecmat(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    r = lib.matmul(I, Arr(x.a[..., None, :], x.dt, x.conc), y)
    return Arr(r.a[..., 0, :], r.dt, r.conc)


TABLE["jax.lax.batch_matmul"] = lambda I, a, b, **kw: TABLE[JNP + "matmul"](I, a, b, **kw)


@jn("linalg.matrix_norm")
def j_matrix_norm(I, x, keepdims=False, ord="fro"):
    if ord != "fro":
        raise Incomplete("matrix norm")
    return TABLE[JNP + "linalg.vector_norm"](I, x, (-2, -1), keepdims)


@jn("linalg.matrix_transpose")
def j_lmt(I, x):
    return TABLE[JNP + "matrix_transpose"](I, x) if JNP + "matrix_transpose" in TABLE else _wrap_np(I, lambda a: np.swapaxes(a, -1, -2), asarr(I, x))


@jn("linalg.diagonal")
def j_ldiag(I, x, offset=0):
    return TABLE[JNP + "diagonal"](I, x, offset, -2, -1)


@jn("linalg.pinv")
def j_pinv(I, a, **kw):
    raise Incomplete("pinv (at %s)" % I.loc())


# ---- lax structural primitives
@impl("jax.lax.reshape")
def l_reshape(I, operand, new_sizes, dimensions=None, **kw):
    if dimensions is not None:
        raise Incomplete("reshape dimensions")
    return TABLE[JNP + "reshape"](I, operand, new_sizes)


@impl("jax.lax.rev")
def l_rev(I, operand, dimensions):
    return TABLE[JNP + "flip"](I, operand, tuple(dimensions))


@impl("jax.lax.broadcast")
def l_broadcast(I, operand, sizes, **kw):
    x = asarr(I, operand)
    return _wrap_np(I, np.broadcast_to, x, shape_of(I, sizes) + x.shape)


@impl("jax.lax.broadcast_in_dim")
def l_broadcast_in_dim(I, operand, shape, broadcast_dimensions, **kw):
    x = asarr(I, operand)
    sh = shape_of(I, shape)
    t = [1] * len(sh)
    for i, d in enumerate(broadcast_dimensions):
        t[_inum(I, d)] = x.shape[i]
    return _wrap_np(I, lambda a: np.broadcast_to(a.reshape(t), sh), x)


@impl("jax.lax.full")
def l_full(I, shape, fill_value, dtype=None, **kw):
    return TABLE[JNP + "full"](I, shape, fill_value, dtype)


@impl("jax.lax.iota")
def l_iota(I, dtype, size):
    return TABLE[JNP + "arange"](I, size)


@impl("jax.lax.slice")
def l_slice(I, operand, start_indices, limit_indices, strides=None):
    x = asarr(I, operand)
    st = strides or [1] * x.ndim
    return arr_getitem(I, x, tuple(slice(_inum(I, a), _inum(I, b), _inum(I, c)) for a, b, c in zip(start_indices, limit_indices, st)))


@impl("jax.lax.slice_in_dim")
def l_slice_in_dim(I, operand, start_index, limit_index, stride=1, axis=0):
    x = asarr(I, operand)
    ax = axis_norm(I, axis, x.ndim)
    return arr_getitem(I, x, (slice(None),) * ax + (slice(None if start_index is None else _inum(I, start_index), None if limit_index is None else _inum(I, limit_index), _inum(I, stride)),))


@impl("jax.lax.index_in_dim")
def l_index_in_dim(I, operand, index, axis=0, keepdims=True):
    x = asarr(I, operand)
    ax = axis_norm(I, axis, x.ndim)
    k = _inum(I, index)
    return arr_getitem(I, x, (slice(None),) * ax + ((slice(k, k + 1) if k != -1 else slice(k, None)) if keepdims else k,))


def _term(I, v):
    return asarr(I, v).item()


@impl("jax.lax.dynamic_slice_in_dim")
def l_dyn_slice_in_dim(I, operand, start_index, slice_size, axis=0):
    x = asarr(I, operand)
    ax = axis_norm(I, axis, x.ndim)
    n, s = x.shape[ax], _inum(I, slice_size)
    it = _term(I, start_index)
    pieces = [x.a.take(range(k, k + s), axis=ax) for k in range(n - s + 1)]
    # the start index wraps when negative and is clamped so that the slice fits
    if it.op == "const":
        k = int(it.attr)
        k = k + n if k < 0 else k
        return Arr(pieces[max(0, min(n - s, k))], x.dt)
    it = N.sel(N.cmp("<", it, N.ZERO), N.add(it, C(n)), it, True)
    r = pieces[-1]
    for k in range(len(pieces) - 2, -1, -1):
        r = emap(lambda p, q: N.sel(N.cmp("<=", it, C(k)), p, q, True), pieces[k], r)
    return Arr(r, x.dt)


@impl("jax.lax.dynamic_index_in_dim")
def l_dyn_index_in_dim(I, operand, index, axis=0, keepdims=True):
    x = asarr(I, operand)
    ax = axis_norm(I, axis, x.ndim)
    r = l_dyn_slice_in_dim(I, x, index, 1, ax)
    return r if keepdims else Arr(np.squeeze(r.a, axis=ax), x.dt)


@impl("jax.lax.dynamic_slice")
def l_dyn_slice(I, operand, start_indices, slice_sizes):
    x = asarr(I, operand)
    st = [Arr(n) if not isinstance(n, Arr) else n for n in (list(start_indices.a) if isinstance(start_indices, Arr) else [asarr(I, q) for q in start_indices])]
    for ax, (s, n) in enumerate(zip(st, slice_sizes)):
        x = l_dyn_slice_in_dim(I, x, s, n, ax)
    return x


@impl("jax.lax.dynamic_update_slice_in_dim")
def l_dyn_update_in_dim(I, operand, update, start_index, axis):
    x, u = asarr(I, operand), asarr(I, update)
    ax = axis_norm(I, axis, x.ndim)
    n, s = x.shape[ax], u.shape[ax]
    it = _term(I, start_index)
    outs = []
    for k in range(n - s + 1):
        b = x.a.copy()
        b[(slice(None),) * ax + (slice(k, k + s),)] = u.a
        outs.append(b)
    if it.op == "const":
        k = int(it.attr)
        return Arr(outs[max(0, min(n - s, k + n if k < 0 else k))], x.dt)
    it = N.sel(N.cmp("<", it, N.ZERO), N.add(it, C(n)), it, True)
    r = outs[-1]
    for k in range(len(outs) - 2, -1, -1):
        r = emap(lambda p, q: N.sel(N.cmp("<=", it, C(k)), p, q, True), outs[k], r)
    return Arr(r, x.dt)


@impl("jax.lax.dynamic_update_index_in_dim")
def l_dyn_update_index(I, operand, update, index, axis):
    x, u = asarr(I, operand), asarr(I, update)
    ax = axis_norm(I, axis, x.ndim)
    if u.ndim == x.ndim - 1:
        u = Arr(np.expand_dims(u.a, ax), u.dt)
    return l_dyn_update_in_dim(I, x, u, index, ax)


@impl("jax.lax.dynamic_update_slice")
def l_dyn_update(I, operand, update, start_indices):
    x, u = asarr(I, operand), asarr(I, update)
    st = [q.item() if isinstance(q, Arr) else q for q in (list(start_indices.a) if isinstance(start_indices, Arr) else [asarr(I, q) for q in start_indices])]
    if any(q.op != "const" for q in st):
        if x.ndim != 1:
            raise Incomplete("dynamic_update_slice (at %s)" % I.loc())
        return l_dyn_update_in_dim(I, x, u, Arr(st[0]), 0)
    b = x.a.copy()
    b[tuple(slice(max(0, min(n - s, int(q.attr))), max(0, min(n - s, int(q.attr))) + s) for q, n, s in zip(st, x.shape, u.shape))] = u.a
    return Arr(b, x.dt)


@impl("jax.lax.sort")
def l_sort(I, operand, dimension=-1, is_stable=True, num_keys=1):
    if isinstance(operand, (tuple, list)):
        raise Incomplete("sort of several operands (at %s)" % I.loc())
    return TABLE[JNP + "sort"](I, operand, dimension)


@impl("jax.lax.split")
def l_split(I, operand, sizes, axis=0):
    k = np.cumsum([_inum(I, s) for s in sizes])[:-1]
    return LList(TABLE[JNP + "split"](I, operand, [int(q) for q in k], axis))


@impl("jax.lax.tile")
def l_tile(I, x, reps):
    return TABLE[JNP + "tile"](I, x, reps)


@impl("jax.lax.pad")
def l_pad(I, operand, padding_value, padding_config):
    x = asarr(I, operand)
    if any(_inum(I, c[2]) for c in padding_config) or any(_inum(I, c[0]) < 0 or _inum(I, c[1]) < 0 for c in padding_config):
        raise Incomplete("lax.pad")
    return j_pad(I, x, [(_inum(I, c[0]), _inum(I, c[1])) for c in padding_config], "constant", padding_value)


@impl("jax.lax.collapse")
def l_collapse(I, operand, start_dimension, stop_dimension=None):
    x = asarr(I, operand)
    a = _inum(I, start_dimension) % max(x.ndim, 1)
    b = x.ndim if stop_dimension is None else _inum(I, stop_dimension)
    b = b + x.ndim if b < 0 else b
    n = 1
    for s in x.shape[a:b]:
        n *= s
    return _wrap_np(I, np.reshape, x, x.shape[:a] + (n,) + x.shape[b:])


for _l, _j in (("reduce_sum", "sum"), ("reduce_prod", "prod"), ("reduce_max", "max"), ("reduce_min", "min"), ("reduce_and", "all"), ("reduce_or", "any")):
    TABLE["jax.lax." + _l] = (lambda nm: lambda I, operand, axes, **kw: TABLE[JNP + nm](I, operand, tuple(axes)))(_j)


@impl("jax.lax.dot_general")
def l_dot_general(I, lhs, rhs, dimension_numbers, precision=None, preferred_element_type=None, **kw):
    x, y = asarr(I, lhs), asarr(I, rhs)
    (lc, rc), (lb, rb) = [[[_inum(I, q) for q in z] for z in p] for p in dimension_numbers]
    if precision is not None:
        lib._prec(I, {"precision": precision})
    L = "abcdefghijklm"
    ls = list(L[:x.ndim])
    rs = list("nopqrstuvwxyz"[:y.ndim])
    for p, q in list(zip(lc, rc)) + list(zip(lb, rb)):
        rs[q] = ls[p]
    out = [ls[i] for i in lb] + [ls[i] for i in range(x.ndim) if i not in lc and i not in lb] + [rs[i] for i in range(y.ndim) if i not in rc and i not in rb]
    return TABLE[JNP + "einsum"](I, "".join(ls) + "," + "".join(rs) + "->" + "".join(out), x, y)


@impl("jax.lax.associative_scan")
def l_assoc_scan(I, fn, elems, reverse=False, axis=0):
    ls = [asarr(I, x) for x in flatten(elems)]
    n = ls[0].shape[axis]
    if n > 32:
        raise Incomplete("long associative scan (at %s)" % I.loc())

    def at(i):
        return unflatten(elems, [Arr(l.a.take([i], axis=axis), l.dt) for l in ls])
    idx = list(range(n - 1, -1, -1)) if reverse else list(range(n))
    cur = at(idx[0])
    outs = [cur]
    for i in idx[1:]:
        cur = I.call(fn, [cur, at(i)], {})
        outs.append(cur)
    if reverse:
        outs.reverse()
    cols = [[asarr(I, q).a for q in flatten(o)] for o in outs]
    return unflatten(elems, [Arr(np.concatenate([c[k] for c in cols], axis=axis), ls[k].dt) for k in range(len(ls))])


@impl("jax.lax.select_n")
def l_select_n(I, which, *cases):
    w = asarr(I, which)
    cs = [asarr(I, c) for c in cases]
    if w.dt == "b":
        return TABLE[JNP + "where"](I, w, cs[1], cs[0]) if len(cs) == 2 else raise_(I, "TypeError", "select_n")
    r = cs[-1].a
    for k in range(len(cs) - 2, -1, -1):
        r = emap(lambda i, p, q: N.sel(N.cmp("<=", i, C(k)), p, q), w.a, cs[k].a, r)
    return jres(I, r, promote(cs)[0], [w] + cs)


# ---- trees
class TreeDef:
    def __init__(self, proto):
        self.proto = proto
        self.num_leaves = len(flatten(proto))

    def __repr__(self):
        return "treedef"


def t_flatten(I, tree, is_leaf=None):
    if is_leaf is not None:
        raise Incomplete("tree_flatten with is_leaf")
    return (LList(flatten(tree)), TreeDef(tree))


def t_unflatten(I, treedef, leaves):
    if not isinstance(treedef, TreeDef):
        raise Incomplete("tree_unflatten of an unknown structure")
    return unflatten(treedef.proto, I.iterate(leaves))


def t_reduce(I, f, tree, *init, **kw):
    ls = flatten(tree)
    if "initializer" in kw:
        init = (kw["initializer"],)
    if init:
        r = init[0]
    else:
        r, ls = ls[0], ls[1:]
    for x in ls:
        r = I.call(f, [r, x], {})
    return r


def t_all(I, tree, **kw):
    return TABLE["builtins.all"](I, LList(flatten(tree)))


for _p, _f in (("flatten", t_flatten), ("unflatten", t_unflatten), ("reduce", t_reduce), ("all", t_all), ("structure", lambda I, t, **k: TreeDef(t))):
    TABLE["jax.tree." + _p] = TABLE["jax.tree_util.tree_" + _p] = _f
