"""Model of the external libraries (jax, jax.numpy, jax.lax, numpy, math,
functools, operator, builtins) over abstract values.

Anything of jax/numpy that is not modelled raises Incomplete; every other
external call becomes a recorded ExtCall."""
from fractions import Fraction
import math
import itertools
import numpy as np

import nodes as N
from nodes import Node
from values import *

JNP = "jax.numpy."


class AtRef:
    def __init__(self, arr, idx=None):
        self.arr, self.idx = arr, idx


# ------------------------------------------------------------------ helpers
def isnum(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def raise_(I, et, msg):
    raise AbsRaise(et, msg, I.loc())


def asarr(I, v, lists=False):
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        return Arr(N.boolean(v), "b", conc=True, weak=True)
    if isinstance(v, int):
        return Arr(N.const(v), "i", conc=True, weak=True)
    if isinstance(v, Fraction):
        return Arr(N.const(v), "f", conc=True, weak=True)
    if isinstance(v, float):
        return Arr(N.const(v), "f", conc=True, weak=True)
    if isinstance(v, Node):
        return Arr(v)
    if isinstance(v, Inst) and v.cls.kind == "namedtuple":
        v = tuple(v.d.values())
    if isinstance(v, (list, tuple, range)):
        if not lists:
            raise_(I, "TypeError", "JAX function requires an array, got %s" % type(v).__name__)
        xs = [asarr(I, x, True) for x in v]
        if not xs:
            return Arr(np.empty((0,), dtype=object), "f", conc=True)
        if len({x.shape for x in xs}) != 1:
            raise_(I, "ValueError", "inhomogeneous array")
        dt, weak = promote(xs)
        return Arr(np.stack([x.a for x in xs]), dt, conc=all(x.conc for x in xs), weak=False, isnp=all(x.np or x.conc for x in xs))
    if v is None:
        raise_(I, "TypeError", "None is not a valid array")
    if isinstance(v, (str, dict)):
        raise_(I, "TypeError", "%s is not a valid array" % type(v).__name__)
    if isinstance(v, Tok):
        return Arr(N.sym("tok:" + v.name))
    if isinstance(v, ExtCall):
        return Arr(N.opq("ext:%r" % v))
    raise Incomplete("not an array: %r (at %s)" % (v, I.loc()))


def promote(xs):
    """(dt, weak) of the joint type"""
    strong = [x for x in xs if not x.weak]
    weak = [x for x in xs if x.weak]
    if not strong:
        return max((x.dt for x in weak), key=RANK.get), True
    s = max((x.dt for x in strong), key=RANK.get)
    for w in weak:
        kw = {"b": 0, "i": 1}.get(w.dt, 2)
        ks = {"b": 0, "i": 1}.get(s, 2)
        if kw > ks:
            s = w.dt
    return s, False


def bshape(I, arrs):
    try:
        return np.broadcast_shapes(*[a.shape for a in arrs])
    except ValueError:
        raise_(I, "TypeError", "incompatible shapes for broadcasting: %s" % ", ".join(str(a.shape) for a in arrs))


def emap(f, *arrays):
    arrays = [a if isinstance(a, np.ndarray) else obj(a) for a in arrays]
    bs = np.broadcast_arrays(*arrays)
    out = np.empty(bs[0].shape, dtype=object)
    fl = [b.reshape(-1) for b in bs]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = f(*[b[i] for b in fl])
    return out.reshape(bs[0].shape)


def jres(I, a, dt, xs=(), weak=False):
    """result of a jnp operation"""
    return Arr(a, dt, conc=(I.depth == 0 and all(x.conc for x in xs)), weak=weak)


def elementwise(I, f, xs, rule="float", name=""):
    xs = [asarr(I, x) for x in xs]
    bshape(I, xs)
    dt, weak = promote(xs)
    if rule == "float" and dt in ("b", "i"):
        dt = "f"
    elif rule == "bool":
        dt, weak = "b", False
    elif rule == "noint" and dt == "b":
        dt = "i"
    return jres(I, emap(f, *[x.a for x in xs]), dt, xs, weak)


def axis_norm(I, ax, nd, allow_none=True):
    if ax is None:
        return None
    if isinstance(ax, (tuple, list)):
        r = tuple(axis_norm(I, a, nd) for a in ax)
        return r
    ax = I.index_int(ax)
    if isinstance(ax, bool) or not isinstance(ax, int):
        raise_(I, "TypeError", "axis must be an integer")
    if ax < -nd or ax >= nd:
        raise_(I, "ValueError", "axis %s out of bounds for %d dimensions" % (ax, nd))
    return ax % nd


def shape_of(I, s):
    if isinstance(s, Arr):
        if s.ndim == 0:
            return (I.index_int(s),)
        return tuple(I.index_int(Arr(x)) for x in s.a)
    if isinstance(s, (tuple, list)):
        return tuple(I.index_int(x) for x in s)
    return (I.index_int(s),)


def dtype_name(v):
    if v is None:
        return None
    if isinstance(v, DType):
        return v.name
    if isinstance(v, str):
        p = v.split(".")[-1]
    elif isinstance(v, Ext):
        p = v.path.split(".")[-1]
    elif isinstance(v, Arr):
        return v.dt
    else:
        return "?"
    return {"float": "f", "float64": "f", "double": "f", "float_": "f", "float32": "f32", "single": "f32", "float16": "f16", "half": "f16",
            "bfloat16": "f16", "int": "i", "int32": "i", "int64": "i", "int16": "i", "int8": "i", "uint8": "i", "uint32": "i", "uint64": "i", "int_": "i",
            "bool": "b", "bool_": "b", "f4": "f32", "f8": "f", "f2": "f16", "i4": "i", "i8": "i", "float8_e4m3fn": "f16"}.get(p, "?")


def cast(I, x, dt):
    if dt in (None, "?"):
        if dt == "?":
            raise Incomplete("unknown dtype (at %s)" % I.loc())
        return x
    if dt == x.dt:
        return Arr(x.a, dt, x.conc, False, x.np)
    if dt == "b":
        return Arr(emap(N.n2b, x.a), "b", x.conc, False, x.np)
    if dt == "i":
        if x.dt == "b":
            return Arr(emap(N.b2n, x.a), "i", x.conc, False, x.np)
        return Arr(emap(lambda n: n if n.op == "const" and n.attr.denominator == 1 else N.mark("cast:int", N.fn("trunc", n)), x.a), "i", x.conc, False, x.np)
    a = emap(N.b2n, x.a)
    if dt in ("f32", "f16") and not (RANK[x.dt] <= RANK[dt] and x.dt.startswith("f")):
        a = emap(lambda n: n if exact_in(n, dt) else N.mark("cast:" + dt, n), a)
        if x.depends() or any(n.op == "mark" for n in a.reshape(-1)):
            pass
    return Arr(a, dt, x.conc, False, x.np)


def exact_in(n, dt):
    """constants exactly representable in the narrow type lose nothing"""
    if n.op != "const":
        return False
    v = n.attr
    bits = 24 if dt == "f32" else 8
    if v == 0:
        return True
    d = v.denominator
    if d & (d - 1):
        return False
    m = abs(v.numerator)
    while m % 2 == 0:
        m //= 2
    return m.bit_length() <= bits and abs(float(v)) < 1e4


# ------------------------------------------------------------------ operators
def _pow(a, b):
    return N.power(a, b)


BIN = {"Add": (N.add, "same"), "Sub": (N.sub, "same"), "Mult": (N.mul, "same"), "Div": (N.div, "float"),
       "Pow": (_pow, "same"), "Mod": (lambda a, b: N.fn("mod", a, b), "same"),
       "FloorDiv": (lambda a, b: N.fn("floor", N.div(a, b)), "same")}


def lxor(a, b):
    return N.lnot(N.beq(N.n2b(a), N.n2b(b)))


def host(x):
    """a Python number, not an array"""
    return not isinstance(x, Arr) and not hasattr(x, "path") or isinstance(x, Arr) and (x.org == "py" or x.conc and x.weak and not x.np and x.shape == () and x.item().op in ("const", "pi"))


def binop(I, o, l, r):
    py = "py" if host(l) and host(r) else None
    res = _binop(I, o, l, r)
    if py and isinstance(res, Arr) and res.shape == () and res.org is None:
        res.org = "py"
        if o in ("Pow", "Div", "FloorDiv", "Mod"):
            l, r = asarr(I, l, True).item(), asarr(I, r, True).item()
            I.hostops.append((o, l, r, I.loc(), tuple((c, v) for c, v in I.trace)))
    return res


def _binop(I, o, l, r):
    l, r = asarr(I, l, True), asarr(I, r, True)
    conc = l.conc and r.conc
    if o == "MatMult":
        return matmul(I, l, r)
    if o in ("BitAnd", "BitOr", "BitXor"):
        if l.dt == "b" and r.dt == "b":
            f = {"BitAnd": N.land, "BitOr": N.lor, "BitXor": lxor}[o]
            dt = "b"
        elif "f" in (l.dt, r.dt):
            raise_(I, "TypeError", "bitwise operation on floats")
        else:
            f, dt = (lambda a, b: N.opq(o, a, b)), "i"
        bshape(I, [l, r])
        return Arr(emap(f, l.a, r.a), dt, conc)
    if o not in BIN:
        raise Incomplete("operator %s (at %s)" % (o, I.loc()))
    f, rule = BIN[o]
    bshape(I, [l, r])
    dt, weak = promote([l, r])
    if dt == "b":
        dt = "i" if o != "Div" else "f"
    if rule == "float" and dt == "i":
        dt = "f"
    if o == "Pow" and dt == "i":
        c = [n for n in r.nodes() if n.op == "const" and n.attr < 0]
        if c:
            if l.conc and r.conc:
                dt = "f"
            else:
                raise_(I, "TypeError", "integers to negative integer powers are not allowed")
    if dt in ("f32", "f16") and not weak:  # a Python number takes the narrow type of the array it meets
        l, r = narrowed(l, dt), narrowed(r, dt)
    return Arr(emap(f, l.a, r.a), dt, conc, weak, l.np and r.np)


def narrowed(x, dt):
    if x.dt != "f" or not x.weak:
        return x
    return Arr(emap(lambda n: n if exact_in(n, dt) else N.mark("cast:" + dt, n), x.a), dt, x.conc, False, x.np, x.org)


def unop(I, o, v):
    if o == "USub":
        if v.dt == "b":
            raise_(I, "TypeError", "negative of a boolean array")
        return Arr(emap(N.neg, v.a), v.dt, v.conc, v.weak, v.np, "py" if v.org == "py" else None)
    if o == "UAdd":
        return v
    if o == "Invert":
        if v.dt == "b":
            return Arr(emap(N.lnot, v.a), "b", v.conc, False, v.np)
        if v.dt == "i":
            return Arr(emap(lambda n: N.sub(N.neg(n), N.ONE), v.a), "i", v.conc)
        raise_(I, "TypeError", "invert of a float array")
    raise Incomplete("unary %s" % o)


def compare(I, op, l, r):
    l, r = asarr(I, l, True), asarr(I, r, True)
    bshape(I, [l, r])
    return Arr(emap(lambda a, b: N.cmp(op, a, b), l.a, r.a), "b", l.conc and r.conc, False, l.np and r.np)


# ------------------------------------------------------------------ attributes
DTYPES = {"float64": "f", "float32": "f32", "float16": "f16", "bfloat16": "f16", "int32": "i", "int64": "i", "int16": "i", "int8": "i",
          "uint32": "i", "uint8": "i", "uint64": "i", "bool_": "b", "double": "f", "single": "f32", "half": "f16", "float_": "f", "int_": "i",
          "float8_e4m3fn": "f16", "float8_e5m2": "f16"}


def pyfloat(n):
    return Arr(n, "f", conc=True, weak=True)


def ext_attr(I, ext, a):
    p = ext.path + "." + a
    p = canon(p)
    mod = p.rsplit(".", 1)[0]
    if mod in ("jax.numpy", "numpy", "math", "jax.lax"):
        if a == "pi":
            return pyfloat(N.PI)
        if a == "e":
            return pyfloat(N.fn("exp", N.ONE))
        if a == "tau":
            return pyfloat(N.mul(N.TWO, N.PI))
        if a in ("inf", "Inf", "infty"):
            return pyfloat(N.INF)
        if a in ("nan", "NaN"):
            return pyfloat(N.NAN)
        if a == "newaxis":
            return None
        if a in DTYPES and mod != "math":
            return DType(DTYPES[a])
        if a in ("r_", "c_", "s_", "mgrid", "ogrid"):
            raise Incomplete("%s (at %s)" % (p, I.loc()))
    if mod == "scipy.constants" and a == "pi":
        return pyfloat(N.PI)
    if p in ("sys.float_info.epsilon",):
        return Fraction(1, 2 ** 52)
    if p in ("typing.TYPE_CHECKING",):
        return False
    if p.startswith("jax.config.") and a not in ("update",):
        if a in ("jax_enable_x64", "x64_enabled"):
            return Tok("jax_enable_x64")
        return Ext(p)
    if p.startswith("builtins.") and p.count(".") == 2:
        b, m = p.split(".")[1:]
        return Ext(p)
    return Ext(p)


ALIAS = {"jax.numpy.linalg.linalg": "jax.numpy.linalg", "np": "numpy"}


def canon(p):
    if p.startswith("jax._src.numpy."):
        p = "jax.numpy." + p.split(".")[-1]
    if p.startswith("jax.jax."):
        p = p[4:]
    if p.startswith("jax.nn.") and p.split(".")[-1] in ("relu", "sigmoid"):
        return p
    return p


ARR_METHODS = {"sum", "mean", "prod", "max", "min", "any", "all", "cumsum", "cumprod", "reshape", "ravel", "flatten", "squeeze", "transpose",
               "dot", "astype", "item", "tolist", "copy", "conj", "conjugate", "clip", "round", "block_until_ready", "swapaxes", "repeat", "take", "trace",
               "diagonal", "std", "var", "argmax", "argmin", "argsort", "sort", "nonzero", "view", "__getitem__", "__add__", "__mul__", "__sub__",
               "__truediv__", "__neg__", "__len__", "__array__", "__float__", "__int__", "__bool__", "__abs__", "__pow__", "at", "fill", "is_fully_replicated",
               "searchsorted", "ptp", "__matmul__", "device", "devices", "tobytes", "__index__", "__radd__", "__rmul__", "__rsub__", "__gt__", "__lt__", "__eq__", "__ge__", "__le__"}


PYNUM = {"real", "imag", "conjugate"}


def arr_attr(I, x, a):
    if x.org == "py" and a not in PYNUM and not a.startswith("__"):
        raise_(I, "AttributeError", "a Python number has no attribute %s" % a)
    if a == "shape":
        return x.shape
    if a == "ndim":
        return x.ndim
    if a == "size":
        return x.size
    if a == "dtype":
        return DType(x.dt)
    if a in ("T", "mT"):
        return Arr(x.a.T if a == "T" else np.swapaxes(x.a, -1, -2), x.dt, x.conc, x.weak, x.np, x.org if x.org == "arg" else None)
    if a == "real":
        return x
    if a == "imag":
        return Arr(emap(lambda n: N.ZERO, x.a), x.dt, x.conc)
    if a == "at":
        if x.np:
            raise_(I, "AttributeError", "a NumPy array has no attribute at")
        return AtRef(x)
    if a == "weak_type":
        return x.weak
    if a in ("aval", "sharding", "nbytes", "itemsize", "flat"):
        raise Incomplete("array attribute %s (at %s)" % (a, I.loc()))
    if a in ARR_METHODS:
        return Method(x, a)
    raise_(I, "AttributeError", "array has no attribute %s" % a)


def norm_index(I, x, k):
    """python index usable on the object ndarray; traced integer indices are
    reported through a TracedIndex exception"""
    if not isinstance(k, tuple):
        k = (k,)
    out = []
    dim = 0
    nspec = sum(1 for e in k if e is not None and e is not Ellipsis)
    for e in k:
        if e is None:
            out.append(None)
        elif e is Ellipsis or (isinstance(e, Ext) and e.path.endswith("Ellipsis")):
            out.append(Ellipsis)
            dim = x.ndim - (nspec - len([q for q in out if q is not None and q is not Ellipsis]))
        elif isinstance(e, slice):
            out.append(slice(*[None if q is None else I.index_int(q) for q in (e.start, e.stop, e.step)]))
            dim += 1
        elif isinstance(e, bool):
            raise Incomplete("boolean index (at %s)" % I.loc())
        elif isinstance(e, int):
            n = x.shape[dim] if dim < x.ndim else 0
            if dim >= x.ndim:
                raise_(I, "IndexError", "too many indices")
            if e < -n or e >= n:
                if x.np:
                    raise_(I, "IndexError", "index out of bounds")
                e = max(-n, min(n - 1, e))    # jax clamps
            out.append(e)
            dim += 1
        elif isinstance(e, (list, tuple)):
            a = asarr(I, e, True)
            out.append(const_index(I, a))
            dim += 1
        elif isinstance(e, Arr):
            if e.dt == "b":
                vs = [ival_bool(n) for n in e.nodes()]
                if any(v is None for v in vs):
                    I.event("leak", "boolean-mask indexing with a traced mask (data-dependent shape)")
                    raise AbsRaise("NonConcreteBooleanIndexError", "mask depends on run-time values", I.loc())
                out.append(np.array(vs, dtype=bool).reshape(e.shape))
                dim += e.ndim
            else:
                out.append(const_index(I, e))
                dim += 1
        elif isinstance(e, Fraction):
            raise_(I, "TypeError", "float index")
        else:
            raise Incomplete("index %r (at %s)" % (e, I.loc()))
    return tuple(out)


class TracedIndex(Exception):
    def __init__(self, arr):
        self.arr = arr


def ival_bool(n):
    if n.op == "bool":
        return n.attr
    import ival
    r = ival.const_value(n) if not N.deps(n) else None
    return r if isinstance(r, bool) else None


def const_index(I, a):
    vs = []
    for n in a.nodes():
        if n.op == "mark":
            n = n.args[0]
        if n.op != "const" or n.attr.denominator != 1:
            raise TracedIndex(a)
        vs.append(int(n.attr))
    return np.array(vs, dtype=int).reshape(a.shape) if a.ndim else vs[0]


def arr_getitem(I, x, k):
    try:
        idx = norm_index(I, x, k)
    except TracedIndex as t:
        return traced_gather(I, x, k)
    try:
        # jax clamps out-of-range gather indices
        idx = tuple(np.clip(e, -x.shape[0], max(x.shape[0] - 1, 0)) if isinstance(e, np.ndarray) and e.dtype != bool and len(idx) == 1 and not x.np else e for e in idx)
        r = x.a[idx]
    except IndexError as e:
        raise_(I, "IndexError", str(e))
    if not isinstance(r, np.ndarray):
        r = obj(r)
    view = x.org if r.ndim > 0 and not any(isinstance(e, np.ndarray) for e in idx) else None
    return Arr(r, x.dt, x.conc, x.weak, x.np, view)


def traced_gather(I, x, k):
    k = k if isinstance(k, tuple) else (k,)
    pos = [i for i, e in enumerate(k) if isinstance(e, Arr) and any(n.op != "const" for n in e.nodes())]
    if len(pos) == 1 and k[pos[0]].ndim and k[pos[0]].size <= 64 and k[pos[0]].dt != "b" and pos[0] == 0 and all(isinstance(e, slice) or e is Ellipsis for e in k[1:]):
        # an array of indices in front: one gather per index
        q = k[0]
        parts = [traced_gather(I, x, (Arr(n, "i"),) + k[1:]) if n.op != "const" else arr_getitem(I, x, (int(n.attr),) + k[1:]) for n in q.nodes()]
        return Arr(np.stack([p.a for p in parts]).reshape(q.shape + parts[0].shape), x.dt)
    if len(pos) != 1 or k[pos[0]].ndim != 0:
        raise Incomplete("gather with traced indices (at %s)" % I.loc())
    i = pos[0]
    dim = sum(1 for e in k[:i] if e is not None)
    if any(e is Ellipsis for e in k[:i]):
        raise Incomplete("gather after ellipsis (at %s)" % I.loc())
    n = x.shape[dim]
    it = k[i].item()
    res = None
    for j in range(n - 1, -1, -1):
        v = arr_getitem(I, x, k[:i] + (j,) + k[i + 1:])
        if res is None:
            res = v.a
        else:
            # negative indices wrap once, everything else clamps
            c = N.lor(N.cmp("==", it, N.const(j)), N.cmp("==", it, N.const(j - n)))
            if j == 0:
                c = N.lor(c, N.cmp("<=", it, N.const(-n)))
            res = emap(lambda p, q: N.sel(c, p, q, True), v.a, res)
    return Arr(res, x.dt)


def _merge_at(u, old, res, c):
    return emap(lambda p, o, r: r if p is o else N.sel(c, p, r, True), u, old, res)


def at_update(I, x, k, v, mode):
    v = asarr(I, v, True)
    try:
        idx = norm_index(I, x, k)
    except TracedIndex:
        kk = k if isinstance(k, tuple) else (k,)
        if kk and isinstance(kk[0], Arr) and kk[0].ndim == 0 and all(isinstance(e, (slice, int)) for e in kk[1:]) and x.shape[0] <= 64:
            # one scalar index: every position it may take (out-of-range updates are dropped)
            it, n, res = kk[0].item(), x.shape[0], x.a
            for j in range(n):
                u = at_update(I, x, (j,) + kk[1:], v, mode).a
                c = N.lor(N.cmp("==", it, N.const(j)), N.cmp("==", it, N.const(j - n)))
                res = emap(lambda p, q: p if p is q else N.sel(c, p, q, True), u, res) if j == 0 else _merge_at(u, x.a, res, c)
            return Arr(res, x.dt, False, False, x.np)
        raise Incomplete("scatter with traced indices (at %s)" % I.loc())
    if v.dt.startswith("f") and x.dt in ("i", "b"):
        v = cast(I, v, x.dt)
    elif x.dt in ("f32", "f16") and v.dt == "f" and not v.weak:
        v = cast(I, v, x.dt)
    b = x.a.copy()
    cur = b[idx]
    f = {"set": lambda p, q: q, "add": N.add, "multiply": N.mul, "mul": N.mul, "divide": N.div, "power": N.power,
         "subtract": N.sub, "min": lambda p, q: N.fn("min", p, q), "max": lambda p, q: N.fn("max", p, q)}[mode]
    if x.dt.startswith("f"):
        va = emap(N.b2n, v.a)
    else:
        va = v.a
    try:
        if not isinstance(cur, np.ndarray):
            if va.size != 1:
                raise ValueError
            b[idx] = f(cur, va.reshape(-1)[0])
        else:
            b[idx] = emap(f, cur, np.broadcast_to(va, cur.shape))
    except (ValueError, IndexError):
        raise_(I, "ValueError", "shape mismatch in indexed update")
    return Arr(b, x.dt, False, False, x.np)


# ------------------------------------------------------------------ builtins
EXC = {"ValueError", "TypeError", "RuntimeError", "Exception", "KeyError", "IndexError", "NotImplementedError", "AssertionError",
       "AttributeError", "ImportError", "ZeroDivisionError", "OverflowError", "ArithmeticError", "FloatingPointError", "Warning", "DeprecationWarning",
       "UserWarning", "RuntimeWarning", "BaseException", "LookupError", "StopIteration", "ModuleNotFoundError", "NameError", "FutureWarning", "OSError"}
BUILTINS = {"abs", "min", "max", "sum", "len", "range", "enumerate", "zip", "map", "filter", "sorted", "reversed", "isinstance", "issubclass", "type",
            "getattr", "hasattr", "setattr", "callable", "print", "round", "pow", "divmod", "any", "all", "tuple", "list", "dict", "set", "frozenset", "str", "repr",
            "float", "int", "bool", "slice", "iter", "next", "id", "hash", "property", "staticmethod", "classmethod", "object", "open", "input",
            "exec", "eval", "locals", "globals", "vars", "complex", "bytes", "format", "super", "dir", "delattr", "__import__", "ord", "chr", "memoryview"}


def builtin(name):
    if name in EXC or name in BUILTINS:
        return Ext("builtins." + name)
    if name == "Ellipsis":
        return Ellipsis
    if name == "NotImplemented":
        return Ext("builtins.NotImplemented")
    if name in ("__debug__",):
        return True
    return None


def leak(I, what, v):
    for x in flatten(v):
        if isinstance(x, Arr) and x.traced():
            I.event("leak", what)
            return True
    return False


def hostval(I, x):
    """the Python number obtained from a (concrete) array"""
    n = x.item()
    return Arr(n, "f" if x.dt.startswith("f") else x.dt, conc=True, weak=True)


# ------------------------------------------------------------------ function table
TABLE = {}


def impl(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def jn(*names):
    """register for jax.numpy (and numpy)"""
    return impl(*[JNP + n for n in names])


def _reg_elem(name, f, rule="float"):
    def g(I, *xs, **kw):
        dt = kw.pop("dtype", None)
        kw.pop("where", None)
        kw.pop("out", None)
        kw.pop("precision", None)
        if kw:
            raise_(I, "TypeError", "%s got an unexpected keyword %s" % (name, list(kw)))
        r = elementwise(I, f, xs, rule, name)
        return cast(I, r, dtype_name(dt)) if dt is not None else r
    TABLE[JNP + name] = g


def F(n):
    return lambda *a: N.fn(n, *a)


def _skipnan(t):
    """the other operand where one is NaN"""
    return lambda a, b: N.sel(N.fn("isnan", a), b, N.sel(N.fn("isnan", b), a, N.fn(t, a, b)))



C = N.const
for _n, _f, _r in [
    ("sin", F("sin"), "float"), ("cos", F("cos"), "float"), ("tan", F("tan"), "float"),
    ("sinh", F("sinh"), "float"), ("cosh", F("cosh"), "float"), ("tanh", F("tanh"), "float"),
    ("arcsin", F("arcsin"), "float"), ("arccos", F("arccos"), "float"), ("arctan", F("arctan"), "float"),
    ("asin", F("arcsin"), "float"), ("acos", F("arccos"), "float"), ("atan", F("arctan"), "float"),
    ("arcsinh", F("arcsinh"), "float"), ("arccosh", F("arccosh"), "float"), ("arctanh", F("arctanh"), "float"),
    ("asinh", F("arcsinh"), "float"), ("acosh", F("arccosh"), "float"), ("atanh", F("arctanh"), "float"),
    ("arctan2", F("arctan2"), "float"), ("atan2", F("arctan2"), "float"),
    ("exp", F("exp"), "float"), ("expm1", F("expm1"), "float"), ("log", F("log"), "float"), ("log1p", F("log1p"), "float"),
    ("exp2", lambda x: N.power(N.TWO, x), "float"),
    ("log2", lambda x: N.div(N.fn("log", x), N.fn("log", N.TWO)), "float"),
    ("log10", lambda x: N.div(N.fn("log", x), N.fn("log", C(10))), "float"),
    ("sqrt", N.sqrt, "float"), ("cbrt", F("cbrt"), "float"),
    ("abs", F("abs"), "noint"), ("absolute", F("abs"), "noint"), ("fabs", F("abs"), "float"),
    ("sign", F("sign"), "same"), ("floor", F("floor"), "float"), ("ceil", F("ceil"), "float"), ("trunc", F("trunc"), "float"), ("fix", F("trunc"), "float"),
    ("rint", F("round"), "float"),
    ("add", N.add, "same"), ("subtract", N.sub, "same"), ("multiply", N.mul, "same"), ("divide", N.div, "float"), ("true_divide", N.div, "float"),
    ("negative", N.neg, "same"), ("positive", lambda x: x, "same"), ("reciprocal", lambda x: N.div(N.ONE, x), "same"),
    ("float_power", N.power, "float"),
    ("square", lambda x: N.power(N.b2n(x), N.TWO), "same"),
    ("floor_divide", lambda a, b: N.fn("floor", N.div(a, b)), "same"),
    ("mod", F("mod"), "same"), ("remainder", F("mod"), "same"),
    ("fmod", lambda a, b: N.sub(a, N.mul(b, N.fn("trunc", N.div(a, b)))), "same"),
    ("maximum", F("max"), "same"), ("minimum", F("min"), "same"), ("fmax", _skipnan("max"), "same"), ("fmin", _skipnan("min"), "same"),
    ("hypot", lambda a, b: N.sqrt(N.add(N.power(N.b2n(a), N.TWO), N.power(N.b2n(b), N.TWO))), "float"),
    ("deg2rad", lambda x: N.mul(x, N.div(N.PI, C(180))), "float"), ("radians", lambda x: N.mul(x, N.div(N.PI, C(180))), "float"),
    ("rad2deg", lambda x: N.mul(x, N.div(C(180), N.PI)), "float"), ("degrees", lambda x: N.mul(x, N.div(C(180), N.PI)), "float"),
    ("copysign", lambda a, b: N.sel(N.cmp("<", b, N.ZERO), N.neg(N.fn("abs", a)), N.fn("abs", a), True), "float"),
    ("heaviside", lambda x, h: N.sel(N.cmp("<", x, N.ZERO), N.ZERO, N.sel(N.cmp("==", x, N.ZERO), h, N.ONE, True), True), "float"),
    ("sinc", lambda x: N.sel(N.cmp("==", x, N.ZERO), N.ONE, N.div(N.fn("sin", N.mul(N.PI, x)), N.mul(N.PI, x)), True), "float"),
    ("isnan", F("isnan"), "bool"), ("isfinite", F("isfinite"), "bool"), ("isinf", F("isinf"), "bool"),
    ("greater", lambda a, b: N.cmp(">", a, b), "bool"), ("less", lambda a, b: N.cmp("<", a, b), "bool"),
    ("greater_equal", lambda a, b: N.cmp(">=", a, b), "bool"), ("less_equal", lambda a, b: N.cmp("<=", a, b), "bool"),
    ("equal", lambda a, b: N.cmp("==", a, b), "bool"), ("not_equal", lambda a, b: N.cmp("!=", a, b), "bool"),
    ("logical_and", N.land, "bool"), ("logical_or", N.lor, "bool"), ("logical_xor", lxor, "bool"), ("logical_not", N.lnot, "bool"),
    ("signbit", lambda x: N.cmp("<", x, N.ZERO), "bool"),
    ("real", lambda x: x, "same"), ("conj", lambda x: x, "same"), ("conjugate", lambda x: x, "same"),
]:
    _reg_elem(_n, _f, _r)


@jn("power", "pow")
def j_power(I, a, b):
    r = binop(I, "Pow", asarr(I, a), asarr(I, b))
    r.conc = False
    return r


@jn("bitwise_and")
def j_band(I, a, b):
    return binop(I, "BitAnd", asarr(I, a), asarr(I, b))


@jn("bitwise_or")
def j_bor(I, a, b):
    return binop(I, "BitOr", asarr(I, a), asarr(I, b))


@jn("bitwise_not", "invert", "bitwise_invert")
def j_bnot(I, a):
    return unop(I, "Invert", asarr(I, a))


@jn("bitwise_xor")
def j_bxor(I, a, b):
    return binop(I, "BitXor", asarr(I, a), asarr(I, b))


@jn("divmod")
def j_divmod(I, a, b):
    return (binop(I, "FloorDiv", asarr(I, a), asarr(I, b)), binop(I, "Mod", asarr(I, a), asarr(I, b)))


@jn("round", "around")
def j_round(I, a, decimals=0, **kw):
    d = I.index_int(decimals)
    s = C(Fraction(10) ** d)
    return elementwise(I, lambda x: N.div(N.fn("round", N.mul(x, s)), s), [a], "same")


@jn("where")
def j_where(I, c, x=None, y=None, **kw):
    if x is None and y is None:
        I.event("leak", "one-argument where has a data-dependent shape")
        raise Incomplete("one-argument where (at %s)" % I.loc())
    c, x, y = asarr(I, c), asarr(I, x), asarr(I, y)
    bshape(I, [c, x, y])
    dt, weak = promote([x, y])
    return jres(I, emap(lambda p, q, r: N.sel(N.n2b(p), q, r), c.a, x.a, y.a), dt, (c, x, y), weak)


@jn("select")
def j_select(I, conds, choices, default=0):
    r = asarr(I, default)
    xs = [asarr(I, x) for x in choices]
    cs = [asarr(I, c) for c in conds]
    sh = bshape(I, xs + cs + [r])
    dt, _ = promote(xs + [r])
    v = np.broadcast_to(r.a, sh)
    for c, x in reversed(list(zip(cs, xs))):
        v = emap(lambda p, q, s: N.sel(N.n2b(p), q, s), c.a, x.a, v)
    return jres(I, v, dt, xs + cs)


@jn("piecewise")
def j_piecewise(I, x, conds, funcs, *args, **kw):
    x = asarr(I, x)
    cs = [asarr(I, c) for c in (conds if isinstance(conds, (list, tuple)) else [conds])]
    fs = list(funcs)
    vals = []
    for f in fs:
        if isinstance(f, (Func, Partial, Wrapped, Ext, Bound)):
            v = asarr(I, I.call(f, [x] + list(args), dict(kw)))
        else:
            v = asarr(I, f)
        vals.append(v)
    r = vals[len(cs)].a if len(vals) > len(cs) else obj(N.ZERO)
    r = np.broadcast_to(r, x.shape)
    # the FIRST matching condition... numpy: the last one wins is not used by jax (argmax of the first True)
    for c, v in reversed(list(zip(cs, vals))):
        r = emap(lambda p, q, s: N.sel(N.n2b(p), q, s, True), c.a, np.broadcast_to(v.a, x.shape), r)
    return jres(I, r, x.dt, [x])


@jn("clip")
def j_clip(I, x=None, lo=None, hi=None, **kw):
    x = kw.get("arr", kw.get("a", x))
    lo = kw.get("min", kw.get("a_min", lo))
    hi = kw.get("max", kw.get("a_max", hi))
    r = asarr(I, x)
    if lo is not None:
        r = elementwise(I, F("max"), [r, lo], "same")
    if hi is not None:
        r = elementwise(I, F("min"), [r, hi], "same")
    return r


@impl("jax.lax.clamp")
def l_clamp(I, lo, x, hi):
    return j_clip(I, x, lo, hi)


@jn("nan_to_num")
def j_nan_to_num(I, x, copy=True, nan=0, posinf=None, neginf=None):
    return elementwise(I, lambda a, b: N.sel(N.fn("isnan", a), b, a), [x, nan], "float")


@jn("isclose")
def j_isclose(I, a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), equal_nan=False):
    return elementwise(I, lambda x, y, r, t: N.cmp("<=", N.fn("abs", N.sub(x, y)), N.add(t, N.mul(r, N.fn("abs", y)))), [a, b, rtol, atol], "bool")


@jn("allclose")
def j_allclose(I, a, b, **kw):
    return j_all(I, j_isclose(I, a, b, **kw))


@jn("array_equal")
def j_array_equal(I, a, b, **kw):
    a, b = asarr(I, a, True), asarr(I, b, True)
    if a.shape != b.shape:
        return Arr(N.FALSE, "b")
    return j_all(I, compare(I, "==", a, b))


# ---- constructors
@jn("array", "asarray", "copy", "ascontiguousarray", "asanyarray", "atleast_nd", "frombuffer")
def j_array(I, x, dtype=None, *a, **kw):
    if "ndmin" in kw and kw["ndmin"] not in (0, None):
        raise Incomplete("ndmin")
    r = asarr(I, x, True)
    if dtype is not None:
        r = cast(I, r, dtype_name(dtype))
    return jres(I, r.a.copy(), r.dt, [r], r.weak and dtype is None)


def _fill(I, shape, v, dtype, default):
    sh = shape_of(I, shape)
    va = asarr(I, v)
    dt = dtype_name(dtype) or (default if default else va.dt)
    if default is None and dtype is not None:
        va = cast(I, va, dt)
    n = va.a
    if dt == "b":
        n = emap(N.n2b, n)
    else:
        n = emap(N.b2n, n)
    try:
        return jres(I, np.broadcast_to(n, sh).copy(), dt, [va])
    except ValueError:
        raise_(I, "ValueError", "cannot broadcast fill value")


@jn("zeros", "empty")
def j_zeros(I, shape, dtype=None, **kw):
    return _fill(I, shape, 0, dtype, "f")


@jn("ones")
def j_ones(I, shape, dtype=None, **kw):
    return _fill(I, shape, 1, dtype, "f")


@jn("full")
def j_full(I, shape, fill_value=None, dtype=None, **kw):
    return _fill(I, shape, fill_value, dtype, None)


def _like(I, x, v, dtype, shape):
    x = asarr(I, x)
    va = asarr(I, v)
    r = _fill(I, shape if shape is not None else x.shape, 0, dtype, x.dt)
    va = cast(I, va, r.dt) if not va.weak or r.dt in ("i", "b") else va
    a = np.broadcast_to(emap(N.n2b if r.dt == "b" else N.b2n, va.a), r.shape).copy()
    return jres(I, a, r.dt, [x, va], x.weak and dtype is None)


@jn("zeros_like", "empty_like")
def j_zeros_like(I, a=None, dtype=None, shape=None, **kw):
    return _like(I, kw.get("prototype", kw.get("x", a)), 0, dtype, shape)


@jn("ones_like")
def j_ones_like(I, a=None, dtype=None, shape=None, **kw):
    return _like(I, kw.get("x", a), 1, dtype, shape)


@jn("full_like")
def j_full_like(I, a, fill_value, dtype=None, shape=None, **kw):
    return _like(I, a, fill_value, dtype, shape)


@jn("eye")
def j_eye(I, N_=None, M=None, k=0, dtype=None, **kw):
    n = I.index_int(kw.pop("N", N_))
    m = I.index_int(M) if M is not None else n
    a = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            a[i, j] = N.ONE if j - i == k else N.ZERO
    return jres(I, a, dtype_name(dtype) or "f")


@jn("identity")
def j_identity(I, n, dtype=None):
    return j_eye(I, n, dtype=dtype)


@jn("arange")
def j_arange(I, start, stop=None, step=None, dtype=None, **kw):
    if stop is None:
        start, stop = 0, start
    vals = [start, stop, 1 if step is None else step]
    fr = []
    for v in vals:
        x = asarr(I, v)
        if x.item().op != "const":
            I.event("leak", "arange with a traced bound (data-dependent shape)")
            raise AbsRaise("ConcretizationTypeError", "arange", I.loc())
        fr.append(x.item().attr)
    n = max(0, math.ceil((fr[1] - fr[0]) / fr[2]))
    if n > 4096:
        raise Incomplete("arange too long")
    isf = any(isinstance(v, Fraction) or (isinstance(v, Arr) and v.dt == "f") for v in vals)
    a = np.empty((n,), dtype=object)
    for i in range(n):
        a[i] = C(fr[0] + i * fr[2])
    return jres(I, a, dtype_name(dtype) or ("f" if isf else "i"))


@jn("linspace")
def j_linspace(I, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **kw):
    n = I.index_int(num)
    s, e = asarr(I, start), asarr(I, stop)
    d = max(n - 1, 1) if endpoint is True else n
    rows = [emap(lambda p, q: N.add(p, N.mul(N.sub(q, p), C(Fraction(i, d)))), s.a, e.a) for i in range(n)]
    return jres(I, np.stack(rows), "f", [s, e])


# ---- shape
def _wrap_np(I, f, x, *rest, **kw):
    try:
        r = f(x.a, *rest, **kw)
    except (ValueError, IndexError) as e:
        raise_(I, "TypeError", "shape error: %s" % e)
    return Arr(r if isinstance(r, np.ndarray) else obj(r), x.dt, x.conc and I.depth == 0, x.weak, x.np)


@jn("reshape")
def j_reshape(I, a, *shape, **kw):
    x = asarr(I, a, True)
    s = kw.get("shape", kw.get("newshape", shape[0] if len(shape) == 1 else shape))
    return _wrap_np(I, np.reshape, x, shape_of(I, s))


@jn("ravel")
def j_ravel(I, a, *r, **kw):
    x = asarr(I, a)
    return _wrap_np(I, np.ravel, x)


@jn("squeeze")
def j_squeeze(I, a, axis=None):
    x = asarr(I, a)
    ax = axis_norm(I, axis, x.ndim)
    return _wrap_np(I, np.squeeze, x, axis=ax)


@jn("expand_dims")
def j_expand_dims(I, a, axis):
    x = asarr(I, a)
    ax = tuple(I.index_int(q) for q in axis) if isinstance(axis, (tuple, list)) else I.index_int(axis)
    return _wrap_np(I, np.expand_dims, x, ax)


@jn("transpose", "permute_dims")
def j_transpose(I, a, axes=None):
    x = asarr(I, a, True)
    return _wrap_np(I, np.transpose, x, None if axes is None else shape_of(I, axes))


@jn("matrix_transpose")
def j_mT(I, a):
    x = asarr(I, a, True)
    return _wrap_np(I, np.swapaxes, x, -1, -2)


@jn("swapaxes")
def j_swapaxes(I, a, axis1, axis2):
    x = asarr(I, a)
    return _wrap_np(I, np.swapaxes, x, I.index_int(axis1), I.index_int(axis2))


@jn("moveaxis")
def j_moveaxis(I, a, source, destination):
    x = asarr(I, a)
    g = lambda s: tuple(I.index_int(q) for q in s) if isinstance(s, (tuple, list)) else I.index_int(s)
    return _wrap_np(I, np.moveaxis, x, g(source), g(destination))


@jn("broadcast_to")
def j_broadcast_to(I, a, shape, **kw):
    x = asarr(I, a)
    return _wrap_np(I, lambda v: np.broadcast_to(v, shape_of(I, shape)).copy(), x)


@jn("broadcast_arrays")
def j_broadcast_arrays(I, *xs):
    xs = [asarr(I, x) for x in xs]
    sh = bshape(I, xs)
    return LList(Arr(np.broadcast_to(x.a, sh).copy(), x.dt, False, x.weak) for x in xs)


@jn("broadcast_shapes")
def j_broadcast_shapes(I, *ss):
    try:
        return tuple(np.broadcast_shapes(*[shape_of(I, s) for s in ss]))
    except ValueError:
        raise_(I, "ValueError", "incompatible shapes")


@jn("atleast_1d")
def j_atleast_1d(I, *xs):
    r = [_wrap_np(I, np.atleast_1d, asarr(I, x, True)) for x in xs]
    return r[0] if len(r) == 1 else LList(r)


@jn("atleast_2d")
def j_atleast_2d(I, *xs):
    r = [_wrap_np(I, np.atleast_2d, asarr(I, x, True)) for x in xs]
    return r[0] if len(r) == 1 else LList(r)


@jn("roll")
def j_roll(I, a, shift, axis=None):
    x = asarr(I, a)
    return _wrap_np(I, np.roll, x, I.index_int(shift), axis=axis_norm(I, axis, x.ndim))


@jn("flip")
def j_flip(I, m, axis=None):
    x = asarr(I, m)
    return _wrap_np(I, np.flip, x, axis=axis_norm(I, axis, x.ndim))


@jn("flipud")
def j_flipud(I, m):
    return _wrap_np(I, np.flipud, asarr(I, m))


@jn("fliplr")
def j_fliplr(I, m):
    return _wrap_np(I, np.fliplr, asarr(I, m))


@jn("tile")
def j_tile(I, a, reps):
    x = asarr(I, a)
    return _wrap_np(I, np.tile, x, shape_of(I, reps))


@jn("repeat")
def j_repeat(I, a, repeats, axis=None, **kw):
    x = asarr(I, a)
    return _wrap_np(I, np.repeat, x, I.index_int(repeats), axis=axis_norm(I, axis, x.ndim))


@jn("diag")
def j_diag(I, v, k=0):
    x = asarr(I, v)
    if x.ndim == 1:
        n = x.size + abs(k)
        a = np.empty((n, n), dtype=object)
        a[...] = N.ZERO
        for i in range(x.size):
            a[i + max(-k, 0), i + max(k, 0)] = x.a[i]
        return jres(I, a, x.dt, [x])
    return _wrap_np(I, np.diag, x, k)


@jn("diagonal")
def j_diagonal(I, a, offset=0, axis1=0, axis2=1):
    return _wrap_np(I, np.diagonal, asarr(I, a), offset, axis1, axis2)


@jn("tril", "triu")
def j_tri(I, *a, **k):
    raise Incomplete("tril/triu")


@jn("take")
def j_take(I, a, indices, axis=None, **kw):
    x = asarr(I, a)
    idx = indices if isinstance(indices, int) else asarr(I, indices, True)
    if axis is None:
        x = Arr(x.a.reshape(-1), x.dt, x.conc)
        return arr_getitem(I, x, idx)
    ax = axis_norm(I, axis, x.ndim)
    return arr_getitem(I, x, tuple([slice(None)] * ax + [idx]))


def _seq(I, xs):
    if isinstance(xs, Arr):
        return I.iterate(xs)
    if not isinstance(xs, (list, tuple)):
        raise_(I, "TypeError", "expected a sequence of arrays")
    return list(xs)


def _join(I, xs, f):
    xs = [asarr(I, x) for x in xs]
    if not xs:
        raise_(I, "ValueError", "need at least one array")
    dt, weak = promote(xs)
    try:
        a = f([emap(N.b2n, x.a) if dt != "b" else x.a for x in xs])
    except (ValueError, IndexError) as e:
        raise_(I, "ValueError", "shape error: %s" % e)
    return jres(I, a, dt, xs)


@jn("stack")
def j_stack(I, arrays, axis=0, out=None, dtype=None):
    ax = I.index_int(axis)
    r = _join(I, _seq(I, arrays), lambda v: np.stack(v, axis=ax))
    return cast(I, r, dtype_name(dtype)) if dtype is not None else r


@jn("concatenate", "concat")
def j_concatenate(I, arrays, axis=0, dtype=None, **kw):
    ax = None if axis is None else I.index_int(axis)
    r = _join(I, _seq(I, arrays), lambda v: np.concatenate(v, axis=ax))
    return cast(I, r, dtype_name(dtype)) if dtype is not None else r


@jn("append")
def j_append(I, a, v, axis=None):
    return _join(I, [a, v], lambda q: np.append(q[0], q[1], axis=axis))


@jn("hstack")
def j_hstack(I, t, dtype=None):
    return _join(I, _seq(I, t), np.hstack)


@jn("vstack", "row_stack")
def j_vstack(I, t, dtype=None):
    return _join(I, _seq(I, t), np.vstack)


@jn("dstack")
def j_dstack(I, t, dtype=None):
    return _join(I, _seq(I, t), np.dstack)


@jn("column_stack")
def j_column_stack(I, t):
    return _join(I, _seq(I, t), np.column_stack)


@jn("block")
def j_block(I, arrays):
    leaves = [asarr(I, x) for x in flatten(arrays)]
    dt, _ = promote(leaves)

    def go(v):
        if isinstance(v, (list, tuple)):
            return [go(x) for x in v]
        return emap(N.b2n, asarr(I, v).a)
    try:
        return jres(I, np.block(go(arrays)), dt, leaves)
    except ValueError as e:
        raise_(I, "ValueError", "block: %s" % e)


@jn("array_split")
def j_array_split(I, a, n, axis=0):
    x = asarr(I, a)
    k = [I.index_int(q) for q in n] if isinstance(n, (list, tuple)) else I.index_int(n)
    return LList(Arr(p, x.dt, False) for p in np.array_split(x.a, k, axis=I.index_int(axis)))


@jn("split")
def j_split(I, a, n, axis=0):
    x = asarr(I, a)
    k = [I.index_int(q) for q in n] if isinstance(n, (list, tuple)) else I.index_int(n)
    try:
        return LList(Arr(p, x.dt, False) for p in np.split(x.a, k, axis=I.index_int(axis)))
    except ValueError as e:
        raise_(I, "ValueError", str(e))


@jn("unstack")
def j_unstack(I, a, axis=0):
    x = asarr(I, a)
    m = np.moveaxis(x.a, I.index_int(axis), 0)
    return tuple(Arr(obj(m[i]) if not isinstance(m[i], np.ndarray) else m[i], x.dt) for i in range(m.shape[0]))


@jn("meshgrid")
def j_meshgrid(I, *xs, indexing="xy", **kw):
    xs = [asarr(I, x) for x in xs]
    return LList(Arr(m, x.dt) for m, x in zip(np.meshgrid(*[x.a for x in xs], indexing=indexing), xs))


# ---- reductions
def _reduce(I, x, axis, keepdims, f, dt=None, init=None):
    x = asarr(I, x)
    ax = axis_norm(I, axis, x.ndim)
    if ax is None:
        ax = tuple(range(x.ndim))
    if isinstance(ax, int):
        ax = (ax,)
    rest = [i for i in range(x.ndim) if i not in ax]
    t = np.transpose(x.a, rest + list(ax))
    sh = tuple(x.shape[i] for i in rest)
    n = 1
    for i in ax:
        n *= x.shape[i]
    t = t.reshape(sh + (n,))
    out = np.empty(sh, dtype=object)
    for idx in np.ndindex(*sh):
        v = list(t[idx])
        if not v:
            if init is None:
                raise_(I, "ValueError", "reduction of an empty array")
            r = init
        else:
            r = f(v)
        out[idx] = r
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else x.shape[i] for i in range(x.ndim)))
    return jres(I, out, dt or ("i" if x.dt == "b" else x.dt), [x])


def fold(f):
    def g(v):
        r = v[0]
        for y in v[1:]:
            r = f(r, y)
        return r
    return g


def _kd(kw):
    kw = dict(kw)
    k = kw.pop("keepdims", False)
    for q in ("out", "promote_integers"):
        kw.pop(q, None)
    for q in ("where", "initial"):
        if kw.get(q) is not None:
            raise Incomplete("reduction with %s=" % q)
        kw.pop(q, None)
    return k, kw.pop("dtype", None)


@jn("sum")
def j_sum(I, a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    _kd(kw)
    r = _reduce(I, a, axis, keepdims, lambda v: fold(N.add)([N.b2n(q) for q in v]), init=N.ZERO)
    return cast(I, r, dtype_name(dtype)) if dtype is not None else r


@jn("prod")
def j_prod(I, a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    _kd(kw)
    return _reduce(I, a, axis, keepdims, lambda v: fold(N.mul)([N.b2n(q) for q in v]), init=N.ONE)


@jn("mean", "average")
def j_mean(I, a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if kw.get("weights") is not None:
        w = asarr(I, kw["weights"])
        x = asarr(I, a)
        if w.shape != x.shape:
            raise Incomplete("weighted average")
        return binop(I, "Div", j_sum(I, binop(I, "Mult", x, w), axis, keepdims=keepdims), j_sum(I, w, axis, keepdims=keepdims))
    r = _reduce(I, a, axis, keepdims, lambda v: N.mul(fold(N.add)([N.b2n(q) for q in v]), C(Fraction(1, len(v)))), dt="f")
    return cast(I, r, dtype_name(dtype)) if dtype is not None else r


@jn("var")
def j_var(I, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    def f(v):
        m = N.mul(fold(N.add)(v), C(Fraction(1, len(v))))
        return N.mul(fold(N.add)([N.power(N.sub(q, m), N.TWO) for q in v]), C(Fraction(1, len(v) - ddof)))
    return _reduce(I, a, axis, keepdims, f, dt="f")


@jn("std")
def j_std(I, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    r = j_var(I, a, axis, dtype, out, ddof, keepdims)
    return Arr(emap(N.sqrt, r.a), "f")


@jn("max", "amax")
def j_max(I, a, axis=None, out=None, keepdims=False, **kw):
    _kd(kw)
    return _reduce(I, a, axis, keepdims, fold(F("max")))


@jn("min", "amin")
def j_min(I, a, axis=None, out=None, keepdims=False, **kw):
    _kd(kw)
    return _reduce(I, a, axis, keepdims, fold(F("min")))


def _nanred(f, skip):
    def red(I, a, *args, **kw):
        return f(I, elementwise(I, lambda x: N.sel(N.fn("isnan", x), C(skip), x), [a], "same"), *args, **kw)
    return red


jn("nansum")(_nanred(j_sum, 0))
jn("nanprod")(_nanred(j_prod, 1))


def _nanfold(t):
    def red(I, a, axis=None, out=None, keepdims=False, **kw):
        _kd(kw)
        return _reduce(I, a, axis, keepdims, fold(_skipnan(t)))
    return red


jn("nanmax")(_nanfold("max"))
jn("nanmin")(_nanfold("min"))


@jn("nanmean")
def j_nanmean(I, a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    _kd(kw)

    def f(v):
        s = fold(N.add)([N.sel(N.fn("isnan", q), N.ZERO, q) for q in v])
        return N.div(s, fold(N.add)([N.sel(N.fn("isnan", q), N.ZERO, N.ONE) for q in v]))
    return _reduce(I, a, axis, keepdims, f, dt="f")


@jn("ptp")
def j_ptp(I, a, axis=None, out=None, keepdims=False):
    return binop(I, "Sub", j_max(I, a, axis, None, keepdims), j_min(I, a, axis, None, keepdims))


@jn("all")
def j_all(I, a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(I, a, axis, keepdims, lambda v: fold(N.land)([N.n2b(q) for q in v]), dt="b", init=N.TRUE)


@jn("any")
def j_any(I, a, axis=None, out=None, keepdims=False, **kw):
    return _reduce(I, a, axis, keepdims, lambda v: fold(N.lor)([N.n2b(q) for q in v]), dt="b", init=N.FALSE)


@jn("count_nonzero")
def j_count_nonzero(I, a, axis=None, keepdims=False):
    return _reduce(I, a, axis, keepdims, lambda v: fold(N.add)([N.b2n(N.n2b(q)) for q in v]), dt="i")


@jn("argmax", "argmin")
def j_arg(I, a, axis=None, **kw):
    return _reduce(I, a, axis, kw.get("keepdims", False), lambda v: N.opq("arg", *v), dt="i")


@jn("cumsum", "cumulative_sum")
def j_cumsum(I, a, axis=None, **kw):
    x = asarr(I, a)
    if axis is None:
        x = Arr(x.a.reshape(-1), x.dt)
        axis = 0
    return Arr(np.add.accumulate(x.a, axis=axis_norm(I, axis, x.ndim)), x.dt)


@jn("cumprod")
def j_cumprod(I, a, axis=None, **kw):
    x = asarr(I, a)
    if axis is None:
        x = Arr(x.a.reshape(-1), x.dt)
        axis = 0
    return Arr(np.multiply.accumulate(x.a, axis=axis_norm(I, axis, x.ndim)), x.dt)


@jn("diff")
def j_diff(I, a, n=1, axis=-1, **kw):
    x = asarr(I, a)
    return Arr(np.diff(x.a, n=n, axis=axis), x.dt)


@jn("sort")
def j_sort(I, a, axis=-1, **kw):
    x = asarr(I, a)
    ax = axis_norm(I, axis, x.ndim)
    t = np.moveaxis(x.a, ax, -1).copy()
    n = t.shape[-1]
    if n > 4:
        raise Incomplete("sort")
    for idx in np.ndindex(*t.shape[:-1]):
        v = list(t[idx])
        for i in range(n):
            for j in range(n - 1 - i):
                v[j], v[j + 1] = N.fn("min", v[j], v[j + 1]), N.fn("max", v[j], v[j + 1])
        for i in range(n):
            t[idx + (i,)] = v[i]
    return Arr(np.moveaxis(t, -1, ax), x.dt)


# ---- linear algebra
def _prec(I, kw):
    p = kw.pop("precision", None)
    pe = kw.pop("preferred_element_type", None)
    if p is not None:
        s = p if isinstance(p, str) else (p.path.split(".")[-1] if isinstance(p, Ext) else repr(p))
        if str(s).lower() not in ("highest", "float32", "none", "f64"):
            I.event("precision", "matrix product with precision=%s" % s)
    return dtype_name(pe) if pe is not None else None


def _obj2(I, xs):
    xs = [asarr(I, x) for x in xs]
    dt, weak = promote(xs)
    return xs, ("i" if dt == "b" else dt), [emap(N.b2n, x.a) for x in xs]


def _la(I, f, xs, pe=None):
    arrs, dt, os_ = _obj2(I, xs)
    try:
        r = f(*os_)
    except (ValueError, IndexError) as e:
        raise_(I, "TypeError", "shape error: %s" % e)
    r = r if isinstance(r, np.ndarray) else obj(r)
    out = jres(I, obj(r), dt, arrs)
    return cast(I, out, pe) if pe else out


def matmul(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if a.ndim == 0 or b.ndim == 0:
        raise_(I, "TypeError", "matmul input operand must have at least 1 dimension")
    return _la(I, np.matmul, [a, b])


@jn("matmul", "linalg.matmul")
def j_matmul(I, a, b, **kw):
    pe = _prec(I, kw)
    r = matmul(I, a, b)
    return cast(I, r, pe) if pe else r


@jn("dot")
def j_dot(I, a, b, **kw):
    pe = _prec(I, kw)
    return _la(I, np.dot, [a, b], pe)


@jn("inner")
def j_inner(I, a, b, **kw):
    pe = _prec(I, kw)
    return _la(I, np.inner, [a, b], pe)


@jn("vdot")
def j_vdot(I, a, b, **kw):
    pe = _prec(I, kw)
    return _la(I, lambda x, y: np.dot(x.reshape(-1), y.reshape(-1)), [a, b], pe)


@jn("vecdot", "linalg.vecdot")
def j_vecdot(I, a, b, axis=-1, **kw):
    pe = _prec(I, kw)
    r = elementwise(I, N.mul, [a, b], "same")
    r = j_sum(I, r, axis=axis)
    return cast(I, r, pe) if pe else r


@jn("outer", "linalg.outer")
def j_outer(I, a, b, out=None):
    return _la(I, lambda x, y: np.multiply.outer(x.reshape(-1), y.reshape(-1)), [a, b])


@jn("tensordot", "linalg.tensordot")
def j_tensordot(I, a, b, axes=2, **kw):
    pe = _prec(I, kw)
    return _la(I, lambda x, y: np.tensordot(x, y, axes=axes), [a, b], pe)


@jn("kron")
def j_kron(I, a, b):
    return _la(I, np.kron, [a, b])


@jn("einsum")
def j_einsum(I, spec, *ops, **kw):
    pe = _prec(I, kw)
    kw.pop("optimize", None)
    if not isinstance(spec, str):
        raise Incomplete("einsum without subscripts string")
    return _la(I, lambda *xs: np.asarray(_einsum(spec, xs), dtype=object), ops, pe)


def _einsum(spec, xs):
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    terms = lhs.split(",")
    if len(terms) != len(xs):
        raise ValueError("einsum operands")
    # expand ellipsis
    nb = 0
    for t, x in zip(terms, xs):
        if "..." in t:
            nb = max(nb, x.ndim - (len(t) - 3))
    bl = "ABCDEFGH"[:nb]
    new = []
    for t, x in zip(terms, xs):
        if "..." in t:
            k = x.ndim - (len(t) - 3)
            t = t.replace("...", bl[nb - k:] if k else "")
        if len(t) != x.ndim:
            raise ValueError("einsum rank")
        new.append(t)
    if "->" in spec:
        out = rhs.replace("...", bl)
    else:
        al = "".join(new)
        out = bl + "".join(sorted(c for c in set(al) if al.count(c) == 1 and c not in bl))
    size = {}
    for t, x in zip(new, xs):
        for c, s in zip(t, x.shape):
            if c in size and size[c] != s and 1 not in (size[c], s):
                raise ValueError("einsum dims")
            size[c] = max(size.get(c, 1), s)
    red = [c for c in size if c not in out]
    res = np.empty(tuple(size[c] for c in out), dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = None
        for ri in itertools.product(*[range(size[c]) for c in red]):
            env.update(zip(red, ri))
            p = None
            for t, x in zip(new, xs):
                v = x[tuple(env[c] if x.shape[i] > 1 else 0 for i, c in enumerate(t))]
                p = v if p is None else N.mul(p, v)
            acc = p if acc is None else N.add(acc, p)
        res[oi] = N.ZERO if acc is None else acc
    return res


@jn("cross", "linalg.cross")
def j_cross(I, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = I.index_int(axis)
    x, y = asarr(I, a), asarr(I, b)
    if x.ndim == 0 or y.ndim == 0:
        raise_(I, "ValueError", "cross of scalars")
    p = np.moveaxis(x.a, axisa, -1)
    q = np.moveaxis(y.a, axisb, -1)
    if p.shape[-1] != 3 or q.shape[-1] != 3:
        raise_(I, "ValueError", "dimension must be 3 for cross product")
    try:
        sh = np.broadcast_shapes(p.shape, q.shape)
    except ValueError:
        raise_(I, "TypeError", "incompatible shapes for cross: %s %s" % (x.shape, y.shape))
    p, q = np.broadcast_to(p, sh), np.broadcast_to(q, sh)
    m = lambda i, j: emap(lambda s, t, u, v: N.sub(N.mul(s, v), N.mul(t, u)), p[..., i], p[..., j], q[..., i], q[..., j])
    r = np.stack([m(1, 2), m(2, 0), m(0, 1)], axis=-1)
    dt, _ = promote([x, y])
    return jres(I, np.moveaxis(r, -1, axisc), dt, [x, y])


def _vnorm(I, x, axis, keepdims, ord=None):
    x = asarr(I, x)
    if isinstance(ord, (Arr,)):
        n = ord.item()
        if n is N.INF:
            return _reduce(I, x, axis, keepdims, lambda v: fold(F("max"))([N.fn("abs", q) for q in v]), dt="f")
        if n is N.NINF:
            return _reduce(I, x, axis, keepdims, lambda v: fold(F("min"))([N.fn("abs", q) for q in v]), dt="f")
        if n.op == "const":
            ord = n.attr
        else:
            raise Incomplete("norm order")
    dt = x.dt if x.dt.startswith("f") else "f"
    if ord is None or ord == 2:
        return _reduce(I, x, axis, keepdims, lambda v: N.sqrt(fold(N.add)([N.power(N.b2n(q), N.TWO) for q in v])), dt=dt)
    if ord == 1:
        return _reduce(I, x, axis, keepdims, lambda v: fold(N.add)([N.fn("abs", q) for q in v]), dt=dt)
    if isnum(ord) and ord > 0:
        return _reduce(I, x, axis, keepdims, lambda v: N.power(fold(N.add)([N.power(N.fn("abs", q), C(ord)) for q in v]), C(1 / Fraction(ord))), dt=dt)
    raise Incomplete("norm order %r" % ord)


@jn("linalg.vector_norm")
def j_vector_norm(I, x, axis=None, keepdims=False, ord=2):
    return _vnorm(I, x, axis, keepdims, ord)


@jn("linalg.norm")
def j_norm(I, x, ord=None, axis=None, keepdims=False):
    a = asarr(I, x)
    nax = a.ndim if axis is None else (len(axis) if isinstance(axis, (tuple, list)) else 1)
    if nax == 2 and ord is not None:
        if ord != "fro":
            raise Incomplete("matrix norm")
        ord = None
    if nax > 2 and axis is None and ord is not None:
        raise Incomplete("norm")
    return _vnorm(I, a, axis, keepdims, ord)


def _mats(I, a):
    x = asarr(I, a)
    if x.ndim < 2 or x.shape[-1] != x.shape[-2]:
        raise_(I, "ValueError", "square matrix expected")
    return x


def det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n > 4:
        raise Incomplete("determinant of size %d" % n)
    r = None
    for j in range(n):
        s = N.mul(m[0, j], det(np.delete(np.delete(m, 0, 0), j, 1)))
        s = s if j % 2 == 0 else N.neg(s)
        r = s if r is None else N.add(r, s)
    return r


def inverse(m):
    n = m.shape[0]
    d = det(m)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = det(np.delete(np.delete(m, i, 0), j, 1)) if n > 1 else N.ONE
            out[j, i] = N.div(c if (i + j) % 2 == 0 else N.neg(c), d)
    return out


@jn("linalg.det")
def j_det(I, a):
    x = _mats(I, a)
    out = np.empty(x.shape[:-2], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = det(x.a[idx])
    return jres(I, out, "f", [x])


@jn("linalg.inv")
def j_inv(I, a):
    x = _mats(I, a)
    out = np.empty(x.shape, dtype=object)
    for idx in np.ndindex(*x.shape[:-2]):
        out[idx] = inverse(x.a[idx])
    return jres(I, out, "f", [x])


@jn("linalg.solve")
def j_solve(I, a, b):
    return matmul(I, j_inv(I, a), b)


@jn("linalg.matrix_power")
def j_matpow(I, a, n):
    r = asarr(I, a)
    m = r
    for _ in range(I.index_int(n) - 1):
        r = matmul(I, r, m)
    return r


@jn("linalg.multi_dot")
def j_multidot(I, xs, **kw):
    xs = _seq(I, xs)
    r = xs[0]
    for y in xs[1:]:
        r = matmul(I, r, y)
    return r


@jn("trace", "linalg.trace")
def j_trace(I, a, offset=0, axis1=0, axis2=1, **kw):
    x = asarr(I, a)
    return Arr(obj(np.trace(x.a, offset, axis1, axis2)), x.dt)


@jn("polyval")
def j_polyval(I, p, x, **kw):
    p, x = asarr(I, p), asarr(I, x)
    r = None
    for i in range(p.shape[0]):
        c = Arr(obj(p.a[i]), p.dt)
        r = c if r is None else elementwise(I, N.add, [elementwise(I, N.mul, [r, x], "same"), c], "same")
    return elementwise(I, lambda a, b: N.add(a, N.mul(b, N.ZERO)) if False else a, [r, x], "same")


@jn("ndim")
def j_ndim(I, a):
    return asarr(I, a, True).ndim


@jn("shape")
def j_shape(I, a):
    return asarr(I, a, True).shape


@jn("size")
def j_size(I, a, axis=None):
    x = asarr(I, a, True)
    return x.size if axis is None else x.shape[axis]


@jn("isscalar")
def j_isscalar(I, a):
    return isnum(a) or (isinstance(a, Arr) and a.ndim == 0)


@jn("iscomplexobj")
def j_iscomplexobj(I, a):
    return False


@jn("result_type", "promote_types")
def j_result_type(I, *xs):
    best = None
    for x in xs:
        if isinstance(x, (DType, Ext, str)):
            d = dtype_name(x)
        elif isinstance(x, Arr):
            d = x.dt
        elif isinstance(x, Fraction):
            d = "f"
        elif isinstance(x, bool):
            d = "b"
        elif isinstance(x, int):
            d = "i"
        else:
            raise Incomplete("result_type")
        if best is None or RANK.get(d, 4) > RANK.get(best, 4):
            best = d
    return DType(best)


@jn("dtype")
def j_dtype(I, x):
    return DType(dtype_name(x))


@jn("issubdtype")
def j_issubdtype(I, a, b):
    d = dtype_name(a) if not isinstance(a, Arr) else a.dt
    n = b.path.split(".")[-1] if isinstance(b, Ext) else dtype_name(b)
    g = {"floating": ("f", "f32", "f16"), "inexact": ("f", "f32", "f16"), "integer": ("i",), "number": ("i", "f", "f32", "f16"),
         "complexfloating": (), "bool": ("b",), "signedinteger": ("i",)}
    return d in g[n] if n in g else d == n


@jn("finfo", "iinfo")
def j_finfo(I, dt=None):
    d = dtype_name(dt) if not isinstance(dt, Arr) else dt.dt
    eps = {"f32": Fraction(1, 2 ** 23), "f16": Fraction(1, 2 ** 10)}.get(d, Fraction(1, 2 ** 52))
    c = Class("finfo", [], {"eps": eps, "tiny": Fraction(1, 2 ** 1022), "smallest_normal": Fraction(1, 2 ** 1022),
                            "max": Fraction(2 ** 1024 - 2 ** 971), "min": -Fraction(2 ** 1024 - 2 ** 971), "resolution": Fraction(1, 10 ** 15), "dtype": DType(d or "f"), "bits": 64}, None, "class", [])
    return Inst(c, {})


@jn("vectorize")
def j_vectorize(I, f, excluded=None, signature=None, **kw):
    return Wrapped("vectorize", f, {"excluded": set(excluded or ()), "signature": signature})


@jn("apply_along_axis")
def j_apply_along_axis(I, f, axis, arr, *args, **kw):
    x = asarr(I, arr)
    ax = axis_norm(I, axis, x.ndim)
    m = np.moveaxis(x.a, ax, -1)
    outs = {}
    for idx in np.ndindex(*m.shape[:-1]):
        outs[idx] = asarr(I, I.call(f, [Arr(m[idx].copy(), x.dt)] + list(args), kw)).a
    sh = next(iter(outs.values())).shape
    r = np.empty(m.shape[:-1] + sh, dtype=object)
    for idx, v in outs.items():
        r[idx] = v if sh else v.item()
    if sh:
        r = np.moveaxis(r, tuple(range(len(m.shape) - 1, r.ndim)), tuple(range(ax, ax + len(sh))))
    return Arr(r, x.dt)


# ------------------------------------------------------------------ lax
for _l, _j in [("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("sinh", "sinh"), ("cosh", "cosh"), ("tanh", "tanh"), ("asin", "arcsin"),
               ("acos", "arccos"), ("atan", "arctan"), ("asinh", "arcsinh"), ("acosh", "arccosh"), ("atanh", "arctanh"), ("atan2", "arctan2"),
               ("exp", "exp"), ("expm1", "expm1"), ("log", "log"), ("log1p", "log1p"), ("sqrt", "sqrt"), ("cbrt", "cbrt"), ("abs", "abs"),
               ("sign", "sign"), ("floor", "floor"), ("ceil", "ceil"), ("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("div", "divide"),
               ("neg", "negative"), ("max", "maximum"), ("min", "minimum"), ("pow", "power"), ("square", "square"), ("gt", "greater"), ("lt", "less"),
               ("ge", "greater_equal"), ("le", "less_equal"), ("eq", "equal"), ("ne", "not_equal"), ("rem", "fmod"), ("is_finite", "isfinite"),
               ("bitwise_and", "bitwise_and"), ("bitwise_or", "bitwise_or"), ("bitwise_not", "bitwise_not"), ("round", "round"), ("expand_dims", "expand_dims"),
               ("dot", "dot"), ("squeeze", "squeeze"), ("transpose", "transpose"), ("broadcast_shapes", "broadcast_shapes"), ("full_like", "full_like")]:
    TABLE["jax.lax." + _l] = TABLE[JNP + _j]


@impl("jax.lax.concatenate")
def l_concat(I, operands, dimension):
    return j_concatenate(I, operands, dimension)


@impl("jax.lax.reciprocal")
def l_recip(I, x):
    return elementwise(I, lambda a: N.div(N.ONE, a), [x], "float")


@impl("jax.lax.rsqrt", "jax.numpy.rsqrt")
def l_rsqrt(I, x, **kw):
    return elementwise(I, lambda a: N.div(N.ONE, N.sqrt(a)), [x], "float")


@impl("jax.lax.integer_pow")
def l_ipow(I, x, y):
    return elementwise(I, lambda a: N.power(a, C(I.index_int(y))), [x], "same")


@impl("jax.lax.select")
def l_select(I, c, x, y):
    return j_where(I, c, x, y)


@impl("jax.lax.select_n")
def l_select_n(I, which, *cases):
    if len(cases) != 2:
        raise Incomplete("select_n")
    return j_where(I, which, cases[1], cases[0])


@impl("jax.lax.convert_element_type")
def l_convert(I, x, dt):
    return cast(I, asarr(I, x), dtype_name(dt))


@impl("jax.lax.stop_gradient")
def l_stopgrad(I, v):
    def f(x):
        if isnum(x):
            return x
        x = asarr(I, x)
        return Arr(emap(lambda n: N.mark("stopgrad", n) if N.deps(n) else n, x.a), x.dt, False)
    return unflatten(v, [f(x) for x in flatten(v)])


@impl("jax.lax.optimization_barrier", "jax.lax.reduce_precision")
def l_barrier(I, v, *a, **kw):
    if a or kw:
        I.event("precision", "reduce_precision")
        x = asarr(I, v)
        return Arr(emap(lambda n: N.mark("cast:f32", n), x.a), x.dt)
    return v


@impl("jax.lax.reduce_precision")
def l_redprec(I, v, exponent_bits=11, mantissa_bits=52):
    if mantissa_bits >= 52:
        return v
    x = asarr(I, v)
    return Arr(emap(lambda n: N.mark("cast:f32", n), x.a), x.dt)


def scalar_pred(I, p):
    p = asarr(I, p)
    if p.ndim != 0:
        raise_(I, "TypeError", "Pred must be a scalar, got shape %s" % (p.shape,))
    return N.n2b(p.item())


def join_branches(I, c, u, v, lazy=True, strict=True):
    fu, fv = flatten(u), flatten(v)
    if len(fu) != len(fv) or repr_struct(u) != repr_struct(v):
        raise_(I, "TypeError", "cond branches have different structure")
    out = []
    for p, q in zip(fu, fv):
        if not isinstance(p, (Arr, int, Fraction)) or not isinstance(q, (Arr, int, Fraction)):
            raise Incomplete("non-array result of cond (at %s)" % I.loc())
        x, y = asarr(I, p), asarr(I, q)
        if strict and x.shape != y.shape:
            raise_(I, "TypeError", "cond branches have different shapes %s and %s" % (x.shape, y.shape))
        if strict and x.dt != y.dt:
            raise_(I, "TypeError", "cond branches have different types %s and %s" % (x.dt, y.dt))
        out.append(Arr(emap(lambda m, n: N.sel(c, m, n, lazy), x.a, y.a), x.dt, False, x.weak and y.weak))
    return unflatten(u, out)


def repr_struct(v):
    if isinstance(v, tuple):
        return "(" + ",".join(repr_struct(x) for x in v) + ")"
    if isinstance(v, list):
        return "[" + ",".join(repr_struct(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join("%r:%s" % (k, repr_struct(v[k])) for k in sorted(v, key=repr)) + "}"
    if isinstance(v, Inst):
        return v.cls.name + "(" + ",".join(repr_struct(x) for x in v.d.values()) + ")"
    return "None" if v is None else "*"


def traced_tree(I, v):
    """as arrays inside a traced region"""
    def f(x):
        if isinstance(x, (bool, int, Fraction)):
            x = asarr(I, x)
        if isinstance(x, Arr):
            return Arr(x.a, x.dt, False, x.weak)
        return x
    return unflatten(v, [f(x) for x in flatten(v)])


@impl("jax.lax.cond")
def l_cond(I, pred, t, f, *ops, operand=None, **kw):
    if operand is not None and not ops:
        ops = (operand,)
    if kw.get("linear") is not None:
        kw.pop("linear")
    c = scalar_pred(I, pred)
    ops = [traced_tree(I, o) for o in ops]
    u = I.call(t, ops, {})
    v = I.call(f, ops, {})
    return join_branches(I, c, u, v)


@impl("jax.lax.switch")
def l_switch(I, index, branches, *ops, operand=None):
    if operand is not None and not ops:
        ops = (operand,)
    i = asarr(I, index)
    if i.ndim:
        raise_(I, "TypeError", "switch index must be a scalar")
    if i.dt.startswith("f"):
        raise_(I, "TypeError", "switch index must be an integer")
    ops = [traced_tree(I, o) for o in ops]
    vals = [I.call(b, ops, {}) for b in branches]
    r = vals[-1]
    n = N.b2n(i.item())
    for k in range(len(vals) - 2, -1, -1):
        c = N.cmp("<=", n, C(k))
        r = join_branches(I, c, vals[k], r)
    return r


def carries(I, depth, init):
    leaves = [asarr(I, x) for x in flatten(init)]
    k = 0
    cs = []
    for x in leaves:
        a = np.empty(x.shape, dtype=object)
        o = a.reshape(-1)
        for i in range(o.size):
            o[i] = N.carry_sym(depth, k)
            k += 1
        cs.append(Arr(o.reshape(x.shape), x.dt, False, x.weak))
    return leaves, cs, k


def match_carry(I, leaves, out, what):
    fo = [asarr(I, x) for x in flatten(out)]
    if len(fo) != len(leaves):
        raise_(I, "TypeError", "%s body changes the structure of the carry" % what)
    for x, y in zip(leaves, fo):
        if x.shape != y.shape:
            raise_(I, "TypeError", "%s body changes the shape of the carry from %s to %s" % (what, x.shape, y.shape))
        if not x.weak and x.dt != y.dt and x.dt[0] != y.dt[0]:
            raise_(I, "TypeError", "%s body changes the type of the carry" % what)
    return fo


def site(I, kind):
    fn = I.stack[-1][0] if I.stack else "?"
    for nm, _f in reversed(I.stack):
        fn = nm
        break
    return (I.rel(I.file), getattr(I.node, "lineno", 0), kind, fn)


@impl("jax.lax.while_loop")
def l_while(I, cond_fun, body_fun, init_val):
    s = site(I, "while")
    I.loop_depth += 1
    d = I.loop_depth
    try:
        leaves, cs, n = carries(I, d, init_val)
        carry = unflatten(init_val, cs)
        c = scalar_pred(I, I.call(cond_fun, [carry], {}))
        out = I.call(body_fun, [carry], {})
        if repr_struct(out) != repr_struct(init_val):
            raise_(I, "TypeError", "while_loop body changes the structure of the carry")
        fo = match_carry(I, leaves, out, "while_loop")
    finally:
        I.loop_depth -= 1
    init = [N.b2n(x) if y.dt != "b" else x for y in leaves for x in y.nodes()]
    body = [N.b2n(x) if y.dt != "b" else x for y in fo for x in y.nodes()]
    args = tuple(init) + (c,) + tuple(body)
    res, k = [], 0
    for x, y in zip(leaves, fo):
        a = np.empty(x.shape, dtype=object)
        o = a.reshape(-1)
        for i in range(o.size):
            o[i] = N.loop_out("while", k, n, d, args)
            k += 1
        res.append(Arr(o.reshape(x.shape), x.dt if not x.weak else y.dt, False))
    I.loop_sites.setdefault(s, []).append((n, d, args))
    return unflatten(init_val, res)


@impl("jax.lax.fori_loop")
def l_fori(I, lower, upper, body_fun, init_val, **kw):
    lo, hi = asarr(I, lower), asarr(I, upper)
    if lo.ndim or hi.ndim:
        raise_(I, "TypeError", "fori_loop bounds must be scalars")
    ln, hn = lo.item(), hi.item()
    if ln.op == "const" and hn.op == "const" and hn.attr - ln.attr <= 12:
        v = init_val
        for i in range(int(ln.attr), int(hn.attr)):
            out = I.call(body_fun, [Arr(C(i), "i", False), traced_tree(I, v)], {})
            match_carry(I, [asarr(I, x) for x in flatten(v)], out, "fori_loop")
            v = out
        return v
    s = site(I, "fori")
    I.loop_depth += 1
    d = I.loop_depth
    try:
        leaves, cs, n = carries(I, d, init_val)
        carry = unflatten(init_val, cs)
        out = I.call(body_fun, [Arr(N.index_sym(d), "i", False), carry], {})
        if repr_struct(out) != repr_struct(init_val):
            raise_(I, "TypeError", "fori_loop body changes the structure of the carry")
        fo = match_carry(I, leaves, out, "fori_loop")
    finally:
        I.loop_depth -= 1
    init = [N.b2n(x) if y.dt != "b" else x for y in leaves for x in y.nodes()]
    body = [N.b2n(x) if y.dt != "b" else x for y in fo for x in y.nodes()]
    args = tuple(init) + (ln, hn) + tuple(body)
    res, k = [], 0
    for x in leaves:
        a = np.empty(x.shape, dtype=object)
        o = a.reshape(-1)
        for i in range(o.size):
            o[i] = N.loop_out("fori", k, n, d, args)
            k += 1
        res.append(Arr(o.reshape(x.shape), x.dt, False))
    I.loop_sites.setdefault(s, []).append((n, d, args))
    return unflatten(init_val, res)


@impl("jax.lax.scan")
def l_scan(I, f, init, xs=None, length=None, reverse=False, **kw):
    ls = [asarr(I, x) for x in flatten(xs)]
    n = ls[0].shape[0] if ls else I.index_int(length)
    if n > 64:
        raise Incomplete("long scan (at %s)" % I.loc())
    c = init
    ys = []
    order = range(n - 1, -1, -1) if reverse else range(n)
    for i in order:
        x = unflatten(xs, [Arr(obj(l.a[i]) if not isinstance(l.a[i], np.ndarray) else l.a[i], l.dt) for l in ls]) if xs is not None else None
        r = I.call(f, [traced_tree(I, c), x], {})
        if not isinstance(r, tuple) or len(r) != 2:
            raise_(I, "TypeError", "scan body must return a pair")
        match_carry(I, [asarr(I, q) for q in flatten(c)], r[0], "scan")
        c, y = r
        ys.append(y)
    if reverse:
        ys.reverse()
    return (c, stack_trees(I, ys, 0) if ys else None)


def stack_trees(I, ys, axis):
    proto = ys[0]
    cols = [flatten(y) for y in ys]
    out = []
    for i in range(len(cols[0])):
        xs = [asarr(I, c[i]) for c in cols]
        if len({x.shape for x in xs}) != 1:
            raise Incomplete("ragged results")
        out.append(Arr(np.stack([x.a for x in xs], axis=axis), xs[0].dt, False))
    return unflatten(proto, out)


@impl("jax.lax.map")
def l_map(I, f, xs, **kw):
    return vmap_call(I, f, [xs], {}, 0, 0)


@impl("jax.lax.dynamic_slice", "jax.lax.dynamic_index_in_dim", "jax.lax.dynamic_update_slice", "jax.lax.gather", "jax.lax.scatter", "jax.lax.associative_scan",
      "jax.lax.reduce", "jax.lax.custom_root", "jax.lax.custom_linear_solve")
def l_unmodelled(I, *a, **k):
    raise Incomplete("unmodelled lax primitive (at %s)" % I.loc())


# ------------------------------------------------------------------ transformations
@impl("jax.jit", "jax.pjit", "equinox.filter_jit", "jax.api.jit")
def t_jit(I, f=None, **kw):
    f = kw.pop("fun", f)
    if f is None:
        return Partial(Ext("jax.jit"), [], kw)
    return Wrapped("jit", f, kw)


@impl("jax.vmap", "equinox.filter_vmap")
def t_vmap(I, f=None, in_axes=0, out_axes=0, **kw):
    f = kw.pop("fun", f)
    return Wrapped("vmap", f, {"in_axes": in_axes, "out_axes": out_axes})


@impl("jax.checkpoint", "jax.remat", "jax.named_call", "equinox.filter_checkpoint", "jax.ad_checkpoint.checkpoint")
def t_transparent(I, f=None, *a, **kw):
    if f is None:
        return Wrapped("identity", None, {})
    return f


@impl("jax.grad", "jax.value_and_grad", "jax.jacfwd", "jax.jacrev", "jax.jacobian", "jax.hessian", "jax.jvp", "jax.vjp", "jax.linearize")
def t_grad_dummy(I, *a, **kw):
    raise Incomplete("jax differentiation call")


def _mkgrad(kind):
    def g(I, f, argnums=0, **kw):
        return Wrapped(kind, f, {"argnums": argnums, **kw})
    return g


for _k in ("grad", "value_and_grad", "jacfwd", "jacrev", "hessian"):
    TABLE["jax." + _k] = _mkgrad(_k)
TABLE["jax.jacobian"] = _mkgrad("jacrev")


@impl("jax.jvp")
def t_jvp(I, f, primals, tangents, **kw):
    prim = [asarr(I, p) for p in primals]
    tang = [asarr(I, t) for t in tangents]
    out, syms, vals = call_sym(I, f, prim, list(range(len(prim))), {})
    leaves = [asarr(I, x) for x in flatten(out)]
    tn = [t for x, tg in zip(prim, tang) for t in np.broadcast_to(tg.a, x.shape).reshape(-1)]
    m = dict(zip(syms, vals))
    dl = []
    for l in leaves:
        def dd(n):
            acc = N.ZERO
            for s, t in zip(syms, tn):
                acc = N.add(acc, N.mul(N.subst(N.diff(n, s), m), t))
            return acc
        dl.append(Arr(emap(dd, l.a), l.dt))
    return (unflatten(out, [Arr(emap(lambda n: N.subst(n, m), l.a), l.dt) for l in leaves]), unflatten(out, dl))


def call_sym(I, f, args, nums, kw):
    """call with the numbered arguments replaced by fresh symbols"""
    syms, vals, new = [], [], list(args)
    for k in nums:
        x = asarr(I, args[k])
        a = np.empty(x.shape, dtype=object)
        o = a.reshape(-1)
        for i in range(o.size):
            s = I.fresh_sym("$d")
            o[i] = s
            syms.append(s)
            vals.append(x.a.reshape(-1)[i])
        new[k] = Arr(o.reshape(x.shape), "f", False)
    return I.call(f, new, kw), syms, vals


def grad_call(I, w, args, kw):
    an = w.opts.get("argnums", 0)
    single = not isinstance(an, (tuple, list))
    nums = [an] if single else list(an)
    nums = [n % len(args) for n in nums]
    f = w.f
    aux = w.opts.get("has_aux", False)
    out, syms, vals = call_sym(I, f, args, nums, kw)
    auxv = None
    if aux:
        out, auxv = out
    m = dict(zip(syms, vals))
    per = []
    pos = 0
    lists = []
    for k in nums:
        n = asarr(I, args[k]).size
        lists.append((asarr(I, args[k]).shape, syms[pos:pos + n]))
        pos += n

    def jac(leaf):
        r = []
        for sh, ss in lists:
            a = np.empty(leaf.shape + sh, dtype=object)
            for oi in np.ndindex(*leaf.shape):
                for j, s in enumerate(ss):
                    ij = np.unravel_index(j, sh) if sh else ()
                    a[oi + tuple(ij)] = N.subst(N.diff(leaf.a[oi], s), m)
            r.append(Arr(a, "f"))
        return r[0] if single else tuple(r)
    leaves = [asarr(I, x) for x in flatten(out)]
    back = unflatten(out, [Arr(emap(lambda n: N.subst(n, m), l.a), l.dt) for l in leaves])
    if w.kind in ("grad", "value_and_grad"):
        if len(leaves) != 1 or leaves[0].ndim:
            raise_(I, "TypeError", "grad of a non-scalar function")
        g = jac(leaves[0])
        if w.kind == "grad":
            return (g, auxv) if aux else g
        return ((back, auxv) if aux else back, g)
    if w.kind in ("jacfwd", "jacrev"):
        return unflatten(out, [jac(l) for l in leaves]) if len(leaves) > 1 or not isinstance(out, Arr) else jac(leaves[0])
    raise Incomplete("hessian")


@impl("jax.custom_jvp", "jax.custom_vjp", "jax.custom_gradient", "equinox.filter_custom_jvp", "equinox.filter_custom_vjp")
def t_custom(I, f=None, **kw):
    if f is None:
        return Wrapped("identity", None, {})
    return Wrapped("custom", f, kw)


@impl("jax.named_scope", "jax.profiler.annotate_function", "contextlib.nullcontext", "contextlib.suppress")
def t_named_scope(I, *a, **k):
    return ExtCall("context", list(a), k, I.loc(), 0)


@impl("jax.eval_shape", "jax.make_jaxpr")
def t_eval_shape(I, f, *a, **kw):
    return I.call(f, list(a), kw)


@impl("jax.block_until_ready", "jax.device_put")
def t_ident(I, x, *a, **kw):
    return x


@impl("jax.device_get")
def t_device_get(I, x, *a):
    leak(I, "device_get of a traced value", x)
    return x


@impl("jax.pure_callback", "jax.experimental.io_callback", "jax.experimental.host_callback.call", "jax.debug.callback")
def t_callback(I, f, *a, **kw):
    I.event("leak", "host callback")
    I.event("io", "host callback")
    I.event("grad-block", "host callback")
    raise Incomplete("host callback")


@impl("jax.debug.print", "jax.debug.breakpoint")
def t_dbg(I, *a, **kw):
    I.event("io", "jax.debug output")
    return None


@impl("jax.ensure_compile_time_eval", "jax.transfer_guard", "jax.debug_nans", "jax.disable_jit", "jax.checking_leaks")
def t_ctx(I, *a, **k):
    return ExtCall("context", list(a), k, I.loc(), 0)


@impl("jax.enable_x64", "jax.experimental.enable_x64", "jax.experimental.disable_x64", "jax.default_matmul_precision", "jax.numpy_dtype_promotion")
def t_prec_ctx(I, *a, **k):
    I.event("config", "changes the precision configuration")
    return ExtCall("context.enable_x64", list(a), k, I.loc(), 0)


@impl("jax.config.update")
def t_config(I, *a, **k):
    I.event("config", "jax.config.update(%s)" % ", ".join(repr(x) for x in a))
    return None


def tree_map(I, f, tree, *rest, is_leaf=None, **kw):
    ls = [flatten(tree)] + [flatten(r) for r in rest]
    return unflatten(tree, [I.call(f, list(t), {}) for t in zip(*ls)])


for _k in ("jax.tree.map", "jax.tree_util.tree_map", "jax.tree_map"):
    TABLE[_k] = tree_map
for _k in ("jax.tree.leaves", "jax.tree_util.tree_leaves"):
    TABLE[_k] = lambda I, t, **k: LList(flatten(t))


def strip(v, ax, i):
    """slice i of every leaf along axis ax"""
    def f(x):
        if isinstance(x, Arr):
            s = np.take(x.a, i, axis=ax)
            return Arr(s if isinstance(s, np.ndarray) else obj(s), x.dt, False)
        return x
    return unflatten(v, [f(x) for x in flatten(v)])


def vmap_call(I, f, args, kw, in_axes, out_axes):
    if isinstance(in_axes, list):
        raise_(I, "TypeError", "vmap in_axes must be an int, None or tuple")
    if isinstance(in_axes, (int, Arr)) or in_axes is None:
        axes = [in_axes] * len(args)
    else:
        axes = list(in_axes)
    if len(axes) != len(args):
        raise_(I, "ValueError", "vmap in_axes must match the %d positional arguments" % len(args))
    size = None

    def tree_ax(v, ax):
        """list of (leaf, ax)"""
        ls = flatten(v)
        if isinstance(ax, (tuple, list, dict)):
            r = []
            its = zip(v, ax) if not isinstance(ax, dict) else [(v[k], ax[k]) for k in sorted(v, key=repr)]
            for x, a in its:
                r += tree_ax(x, a)
            return r
        return [(l, ax) for l in ls]
    spec = [tree_ax(a, ax) for a, ax in zip(args, axes)]
    kwspec = {k: [(l, 0) for l in flatten(v)] for k, v in kw.items()}
    for l, ax in [x for s in spec for x in s] + [x for s in kwspec.values() for x in s]:
        if ax is None:
            continue
        x = asarr(I, l)
        if x.ndim == 0:
            raise_(I, "ValueError", "vmap of a scalar along axis %s" % ax)
        ax = I.index_int(ax)
        if not -x.ndim <= ax < x.ndim:
            raise_(I, "ValueError", "vmap axis out of bounds")
        n = x.shape[ax]
        if size is None:
            size = n
        elif size != n:
            raise_(I, "ValueError", "vmap got inconsistent sizes")
    if size is None:
        raise_(I, "ValueError", "vmap must have at least one mapped argument")
    outs = []
    for i in range(size):
        def sl(l, ax):
            if ax is None:
                return Arr(l.a, l.dt, False, l.weak) if isinstance(l, Arr) else l
            x = asarr(I, l)
            s = np.take(x.a, i, axis=I.index_int(ax))
            return Arr(s if isinstance(s, np.ndarray) else obj(s), x.dt, False)
        na = [unflatten(a, [sl(l, ax) for l, ax in s]) for a, s in zip(args, spec)]
        nk = {k: unflatten(v, [sl(l, ax) for l, ax in kwspec[k]]) for k, v in kw.items()}
        outs.append(I.call(f, na, nk))
    oa = out_axes
    if isinstance(oa, (tuple, list)):
        res = [stack_trees(I, [o[k] for o in outs], I.index_int(oa[k])) if oa[k] is not None else outs[0][k] for k in range(len(oa))]
        return tuple(res)
    return stack_trees(I, outs, I.index_int(oa))


def vectorize_call(I, w, args, kw):
    sig = w.opts.get("signature")
    exc = w.opts.get("excluded") or set()
    arrs = {i: asarr(I, a) for i, a in enumerate(args) if i not in exc}
    if sig is None:
        cores = {i: 0 for i in arrs}
        outc = None
    else:
        ins = sig.replace(" ", "").split("->")[0]
        parts = [p for p in ins.strip("()").split("),(")]
        cores = {}
        for i, p in zip(arrs, parts):
            cores[i] = len([q for q in p.split(",") if q])
    bsh = []
    for i, x in arrs.items():
        if x.ndim < cores[i]:
            raise_(I, "ValueError", "vectorize: too few dimensions")
        bsh.append(x.shape[:x.ndim - cores[i]])
    try:
        sh = np.broadcast_shapes(*bsh)
    except ValueError:
        raise_(I, "ValueError", "vectorize: shapes do not broadcast")
    bro = {i: np.broadcast_to(x.a, sh + x.shape[x.ndim - cores[i]:]) for i, x in arrs.items()}
    outs = {}
    for idx in np.ndindex(*sh):
        na = []
        for i, a in enumerate(args):
            if i in bro:
                v = bro[i][idx]
                na.append(Arr(v if isinstance(v, np.ndarray) else obj(v), arrs[i].dt, False))
            else:
                na.append(a)
        outs[idx] = I.call(w.f, na, kw)
    if not outs:
        raise Incomplete("empty vectorize")
    first = next(iter(outs.values()))
    fl = {k: [asarr(I, x) for x in flatten(v)] for k, v in outs.items()}
    res = []
    for j, l0 in enumerate(next(iter(fl.values()))):
        r = np.empty(sh + l0.shape, dtype=object)
        for k, v in fl.items():
            r[k] = v[j].a if l0.shape else v[j].item()
        res.append(Arr(r, l0.dt, False))
    return unflatten(first, res)


def wrapped_call(I, w, args, kw):
    k = w.kind
    if k == "identity" and w.f is None:
        return args[0]
    if k in ("identity", "cached"):
        return I.call(w.f, args, kw)
    if k == "jit":
        sn = w.opts.get("static_argnums", ())
        sn = (sn,) if isinstance(sn, int) else tuple(sn or ())
        sa = w.opts.get("static_argnames", ())
        sa = (sa,) if isinstance(sa, str) else tuple(sa or ())
        g = w.f
        names = []
        if isinstance(g, Func):
            names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        stat = set(sn) | {names.index(n) for n in sa if n in names}
        sa = set(sa) | {names[i] for i in sn if isinstance(i, int) and 0 <= i < len(names)}
        new = []
        for i, a in enumerate(args):
            if i in stat or (i - len(args)) in stat:
                leak(I, "traced value passed as a static argument of jit", a)
                new.append(a)
            else:
                new.append(traced_tree(I, a))
        nk = {}
        for q, a in kw.items():
            if q in sa:
                leak(I, "traced value passed as a static argument of jit", a)
                nk[q] = a
            else:
                nk[q] = traced_tree(I, a)
        return I.call(w.f, new, nk)
    if k == "vmap":
        return vmap_call(I, w.f, args, kw, w.opts["in_axes"], w.opts["out_axes"])
    if k == "vectorize":
        return vectorize_call(I, w, args, kw)
    if k in ("grad", "value_and_grad", "jacfwd", "jacrev", "hessian"):
        return grad_call(I, w, args, kw)
    if k == "custom":
        I.event("custom-rule", "custom derivative rule on %s" % getattr(w.f, "name", "function"))
        nd = w.opts.get("nondiff_argnums", ())
        return I.call(w.f, args, kw)
    if k in ("property", "staticmethod", "classmethod"):
        return I.call(w.f, args, kw)
    raise Incomplete("wrapper %s" % k)


# ------------------------------------------------------------------ Python builtins
def py_abs(I, x):
    if isnum(x) or isinstance(x, bool):
        return abs(x)
    if isinstance(x, Arr):
        return Arr(emap(F("abs"), x.a), x.dt, x.conc, x.weak, x.np)
    raise Incomplete("abs of %r" % x)


impl("builtins.abs")(py_abs)


def _minmax(name):
    def g(I, *xs, key=None, default=None):
        if len(xs) == 1:
            xs = I.iterate(xs[0])
        xs = list(xs)
        if not xs:
            if default is not None:
                return default
            raise_(I, "ValueError", "%s of an empty sequence" % name)
        best = xs[0]
        kb = I.call(key, [best], {}) if key else best
        for x in xs[1:]:
            kx = I.call(key, [x], {}) if key else x
            c = I.compare("Gt" if name == "max" else "Lt", kx, kb)
            if isinstance(c, Arr) and not key and isinstance(best, (Arr, int, Fraction)) and isinstance(x, (Arr, int, Fraction)) and c.size == 1:
                if c.traced():
                    I.event("leak", "Python %s() on a traced value" % name)
                best = Arr(emap(F(name), asarr(I, best).a, asarr(I, x).a), promote([asarr(I, best), asarr(I, x)])[0], c.conc)
                kb = best
                continue
            if I.truthy(c, "%s()" % name):
                best, kb = x, kx
        return best
    return g


TABLE["builtins.max"] = _minmax("max")
TABLE["builtins.min"] = _minmax("min")


@impl("builtins.sum")
def py_sum(I, xs, start=0):
    r = start
    for x in I.iterate(xs):
        r = I.binop("Add", r, x)
    return r


@impl("math.prod")
def m_prod(I, xs, start=1):
    r = start
    for x in I.iterate(xs):
        r = I.binop("Mult", r, x)
    return r


@impl("builtins.len")
def py_len(I, x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise_(I, "TypeError", "len() of unsized object")
        return x.shape[0]
    if isinstance(x, (list, tuple, dict, set, frozenset, str, range)):
        return len(x)
    if isinstance(x, Inst):
        m = x.cls.lookup("__len__")
        if m is not None:
            return I.call(Bound(m, x), [], {})
        if x.cls.kind == "namedtuple":
            return len(x.d)
    if isinstance(x, (Tok, ExtCall)):
        return ExtCall("op.len", [x], {}, I.loc(), 0)
    raise_(I, "TypeError", "object has no len()")


@impl("builtins.range")
def py_range(I, *a):
    for x in a:
        if isinstance(x, Arr) and x.size == 1 and x.item().op != "const":
            I.event("leak" if x.traced() else "dynloop", "range() over a run-time value")
            I.event("dynloop", "Python loop over a run-time range")
            raise Incomplete("range over a run-time value (at %s)" % I.loc())
    return range(*[I.index_int(x) for x in a])


@impl("builtins.enumerate")
def py_enumerate(I, xs, start=0):
    return LIter((i, x) for i, x in enumerate(I.iterate(xs), start))


@impl("builtins.zip")
def py_zip(I, *xs, strict=False):
    inf = [x for x in xs if isinstance(x, LIter) and x.more is not None]
    if inf and len(inf) < len(xs):
        fin = {id(x): I.iterate(x) for x in xs if not any(x is y for y in inf)}
        n = min(len(x) for x in fin.values())
        return LIter(zip(*[fin[id(x)][:n] if id(x) in fin else [I.take(x) for _ in range(n)] for x in xs]))
    return LIter(zip(*[I.iterate(x) for x in xs]))


@impl("builtins.map")
def py_map(I, f, *xs):
    return LIter(I.call(f, list(t), {}) for t in zip(*[I.iterate(x) for x in xs]))


@impl("builtins.filter")
def py_filter(I, f, xs):
    return LIter(x for x in I.iterate(xs) if I.truthy(I.call(f, [x], {}) if f is not None else x, "filter"))


@impl("builtins.reversed")
def py_reversed(I, xs):
    return LIter(reversed(I.iterate(xs)))


@impl("builtins.sorted")
def py_sorted(I, xs, key=None, reverse=False):
    v = I.iterate(xs)
    if leak(I, "Python sorted() on traced values", v):
        raise Incomplete("sorted of traced values")
    try:
        return LList(sorted(v, key=(lambda x: I.call(key, [x], {})) if key else None, reverse=bool(reverse)))
    except TypeError:
        raise Incomplete("sorted")


@impl("builtins.any")
def py_any(I, xs):
    for x in I.iterate(xs):
        if I.truthy(x, "any()"):
            return True
    return False


@impl("builtins.all")
def py_all(I, xs):
    for x in I.iterate(xs):
        if not I.truthy(x, "all()"):
            return False
    return True


@impl("builtins.tuple")
def py_tuple(I, xs=()):
    return tuple(I.iterate(xs))


@impl("builtins.list")
def py_list(I, xs=()):
    return LList(I.iterate(xs))


@impl("builtins.iter")
def py_iter(I, xs):
    return xs if isinstance(xs, LIter) else LIter(I.iterate(xs))


@impl("builtins.set", "builtins.frozenset")
def py_set(I, xs=()):
    return LSet(I.hkey(x) for x in I.iterate(xs))


@impl("builtins.dict", "collections.OrderedDict", "types.MappingProxyType")
def py_dict(I, xs=None, **kw):
    d = LDict()
    if isinstance(xs, dict):
        d.update(xs)
    elif isinstance(xs, Tok):
        d["**" + xs.name] = xs
    elif xs is not None:
        for k, v in I.iterate(xs):
            d[I.hkey(k)] = v
    d.update(kw)
    return d


@impl("builtins.next")
def py_next(I, xs, *default):
    if not isinstance(xs, LIter):
        raise Incomplete("next() of %r" % (xs,))
    try:
        return I.take(xs)
    except IndexError:
        pass
    if default:
        return default[0]
    raise_(I, "StopIteration", "")


@impl("builtins.str", "builtins.repr", "builtins.format", "builtins.ascii")
def py_str(I, x="", *a):
    return x if isinstance(x, str) else "<str>"


@impl("builtins.slice")
def py_slice(I, *a):
    return slice(*[None if x is None else I.index_int(x) for x in a])


@impl("builtins.callable")
def py_callable(I, x):
    if isinstance(x, Tok):
        return I.decide(N.sym("?callable(%s)" % x.name))
    return isinstance(x, (Func, Partial, Wrapped, Ext, Bound, Method, Class)) or (isinstance(x, Inst) and x.cls.lookup("__call__") is not None)


@impl("builtins.id", "builtins.hash")
def py_id(I, x):
    I.event("nondet", "object identity used as a value")
    return 0


@impl("builtins.float")
def py_float(I, x=0):
    if isinstance(x, str):
        s = x.strip().lower()
        if s in ("inf", "+inf", "infinity"):
            return pyfloat(N.INF)
        if s == "-inf":
            return pyfloat(N.NINF)
        if s == "nan":
            return pyfloat(N.NAN)
        return Fraction(s)
    if isinstance(x, (bool, int, Fraction)):
        return Fraction(x)
    x = asarr(I, x)
    if x.size != 1:
        raise_(I, "TypeError", "only scalar arrays can be converted to float")
    if x.traced():
        I.event("leak", "float() of a traced value")
    return hostval(I, x)


@impl("builtins.int", "operator.index")
def py_int(I, x=0, *a):
    if isinstance(x, (bool, int, Fraction)):
        return int(x)
    if isinstance(x, str):
        return int(x)
    x = asarr(I, x)
    if x.size != 1:
        raise_(I, "TypeError", "only scalar arrays can be converted to int")
    if x.traced():
        I.event("leak", "int() of a traced value")
    r = cast(I, x, "i")
    n = r.item()
    if n.op == "const":
        return int(n.attr)
    return Arr(n, "i", conc=True, weak=True)


@impl("builtins.bool")
def py_bool(I, x=False):
    if isinstance(x, Arr):
        if x.traced():
            I.event("leak", "bool() of a traced value")
        if x.size != 1:
            raise_(I, "ValueError", "truth value is ambiguous")
        n = N.n2b(x.item())
        return n.attr if n.op == "bool" else Arr(n, "b", conc=True, weak=True)
    return I.truthy(x, "bool()")


@impl("builtins.complex")
def py_complex(I, *a):
    raise Incomplete("complex numbers")


@impl("builtins.round")
def py_round(I, x, nd=None):
    if isnum(x):
        return round(x) if nd is None else round(Fraction(x), nd)
    return j_round(I, x, nd or 0)


@impl("builtins.pow")
def py_pow(I, a, b):
    return I.binop("Pow", a, b)


@impl("builtins.divmod")
def py_divmod(I, a, b):
    return (I.binop("FloorDiv", a, b), I.binop("Mod", a, b))


@impl("builtins.print", "builtins.open", "builtins.input", "builtins.exec", "builtins.eval", "builtins.__import__")
def py_io(I, *a, **k):
    I.event("io", "input/output or dynamic code")
    return None


@impl("builtins.type")
def py_type(I, x, *a):
    if isinstance(x, Inst):
        return x.cls
    if isinstance(x, Arr):
        return Ext("jax.Array") if not x.conc else Ext("builtins.float")
    if isinstance(x, bool):
        return Ext("builtins.bool")
    if isinstance(x, int):
        return Ext("builtins.int")
    if isinstance(x, Fraction):
        return Ext("builtins.float")
    for t, n in ((tuple, "tuple"), (list, "list"), (dict, "dict"), (str, "str"), (set, "set")):
        if isinstance(x, t):
            return Ext("builtins." + n)
    return ExtCall("builtins.type", [x], {}, I.loc(), 0)


@impl("builtins.isinstance")
def py_isinstance(I, x, t):
    if isinstance(t, ExtCall) and t.path == "types.Union":
        t = tuple(t.args)
    if isinstance(t, (tuple, list)):
        return any(py_isinstance(I, x, y) for y in t)
    if t is None:
        return x is None
    if isinstance(t, Class):
        return isinstance(x, Inst) and (x.cls is t or t in mro(x.cls)) if not isinstance(x, Tok) else I.decide(N.sym("?isinstance(%s,%s)" % (x.name, t.name)))
    if isinstance(t, DType):
        return isinstance(x, Arr) and x.ndim == 0 and x.np and x.dt == t.name
    if isinstance(x, (Tok, ExtCall)):
        return I.decide(N.sym("?isinstance(%r,%r)" % (x, t)))
    n = t.path if isinstance(t, Ext) else repr(t)
    last = n.split(".")[-1]
    if isinstance(x, Arr):
        py = x.conc and x.weak
        if last in ("Array", "ArrayImpl", "Tracer", "DeviceArray") or n == "jax.numpy.ndarray":
            return not x.conc
        if last == "ndarray":
            return x.np
        if last in ("float",):
            return py and x.dt == "f"
        if last in ("Number", "Real"):
            return py
        if last == "int":
            return py and x.dt == "i"
        if last == "bool":
            return py and x.dt == "b"
        return False
    if isinstance(x, bool):
        return last in ("bool", "int", "Number", "Real", "Integral", "Rational", "object")
    if isinstance(x, int):
        return last in ("int", "Number", "Real", "Integral", "Rational", "object")
    if isinstance(x, Fraction):
        return last in ("float", "Number", "Real", "object")
    m = {"tuple": tuple, "list": list, "dict": dict, "str": str, "set": set, "Mapping": dict, "MutableMapping": dict, "Sequence": (list, tuple, str), "Iterable": (list, tuple, str, dict, set)}
    if last in m:
        return isinstance(x, m[last]) or (last == "tuple" and isinstance(x, Inst) and x.cls.kind == "namedtuple")
    if last == "Callable":
        return py_callable(I, x)
    if x is None:
        return last == "NoneType"
    if isinstance(x, (Inst, Func, Ext, Partial, Wrapped, str, tuple, list, dict)):
        return False
    raise Incomplete("isinstance(%r, %r)" % (x, t))


def mro(c):
    out = [c]
    for b in c.bases:
        if isinstance(b, Class):
            out += mro(b)
    return out


@impl("builtins.issubclass")
def py_issubclass(I, c, t):
    if isinstance(c, Class) and isinstance(t, Class):
        return t in mro(c)
    raise Incomplete("issubclass")


@impl("builtins.getattr")
def py_getattr(I, o, a, *default):
    try:
        return I.getattr(o, a)
    except AbsRaise as e:
        if default and e.etype == "AttributeError":
            return default[0]
        raise


@impl("builtins.hasattr")
def py_hasattr(I, o, a):
    if isinstance(o, (Tok, ExtCall)):
        return I.decide(N.sym("?hasattr(%r,%s)" % (o, a)))
    if isnum(o):
        return a in ("real", "imag", "conjugate")
    if isinstance(o, Ext):
        return True
    if isinstance(o, (list, tuple, dict, str)):
        return hasattr(type(iter([])) if isinstance(o, LIter) else type(o).__mro__[1] if type(o).__name__ in ("LList", "LDict", "LSet") else type(o), a)
    try:
        I.getattr(o, a)
        return True
    except AbsRaise as e:
        if e.etype == "AttributeError":
            return False
        raise


@impl("builtins.setattr")
def py_setattr(I, o, a, v):
    I.setattr(o, a, v)


@impl("builtins.property")
def py_property(I, f):
    return Wrapped("property", f, {})


@impl("builtins.staticmethod")
def py_static(I, f):
    return Wrapped("staticmethod", f, {})


@impl("builtins.classmethod")
def py_classm(I, f):
    return Wrapped("classmethod", f, {})


@impl("builtins.object")
def py_object(I):
    return Inst(Class("object", [], {}, None, "class", []), {})


# ---- functools / operator / itertools / dataclasses / typing
@impl("functools.partial", "jax.tree_util.Partial")
def f_partial(I, f, *a, **k):
    return Partial(f, list(a), k)


@impl("functools.wraps")
def f_wraps(I, g, *a, **k):
    return Wrapped("identity", None, {})


@impl("functools.lru_cache", "functools.cache", "functools.cached_property", "jax.util.cache")
def f_cache(I, f=None, *a, **k):
    I.event("cache", "results cached between calls")
    if isinstance(f, (Func, Wrapped, Partial)):
        return Wrapped("identity", f, {})
    return Wrapped("identity", None, {})


@impl("functools.reduce")
def f_reduce(I, f, xs, *init):
    v = I.iterate(xs)
    if init:
        r = init[0]
    else:
        r, v = v[0], v[1:]
    for x in v:
        r = I.call(f, [r, x], {})
    return r


for _o, _n in [("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"), ("matmul", "MatMult"), ("mod", "Mod"),
               ("floordiv", "FloorDiv"), ("and_", "BitAnd"), ("or_", "BitOr"), ("xor", "BitXor")]:
    TABLE["operator." + _o] = (lambda nm: lambda I, a, b: I.binop(nm, a, b))(_n)
for _o, _n in [("lt", "Lt"), ("gt", "Gt"), ("le", "LtE"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")]:
    TABLE["operator." + _o] = (lambda nm: lambda I, a, b: I.compare(nm, a, b))(_n)


@impl("operator.neg")
def o_neg(I, x):
    return unop(I, "USub", x) if isinstance(x, Arr) else -x


@impl("operator.getitem")
def o_getitem(I, o, k):
    return I.getitem(o, k)


@impl("operator.itemgetter")
def o_itemgetter(I, *ks):
    return lambda I_, o: I_.getitem(o, ks[0]) if len(ks) == 1 else tuple(I_.getitem(o, k) for k in ks)


@impl("operator.attrgetter")
def o_attrgetter(I, *ks):
    def g(I_, o):
        r = []
        for k in ks:
            v = o
            for p in k.split("."):
                v = I_.getattr(v, p)
            r.append(v)
        return r[0] if len(r) == 1 else tuple(r)
    return g


@impl("itertools.product")
def i_product(I, *xs, repeat=1):
    return LIter(itertools.product(*[I.iterate(x) for x in xs], repeat=repeat))


@impl("itertools.chain")
def i_chain(I, *xs):
    return LIter(y for x in xs for y in I.iterate(x))


@impl("itertools.starmap")
def i_starmap(I, f, xs):
    return LIter(I.call(f, list(I.iterate(x)), {}) for x in I.iterate(xs))


@impl("itertools.combinations")
def i_comb(I, xs, r):
    return LIter(itertools.combinations(I.iterate(xs), r))


@impl("itertools.accumulate")
def i_accum(I, xs, f=None, **k):
    out = LIter()
    for x in I.iterate(xs):
        out.append(x if not out else (I.binop("Add", out[-1], x) if f is None else I.call(f, [out[-1], x], {})))
    return out


def endless(f):
    r = LIter()
    r.more = f
    return r


@impl("itertools.count")
def i_count(I, start=0, step=1):
    at = [start]

    def more():
        x = at[0]
        at[0] = I.binop("Add", x, step)
        return x
    return endless(more)


@impl("itertools.cycle")
def i_cycle(I, xs):
    c = itertools.cycle(I.iterate(xs))
    return endless(lambda: next(c))


@impl("itertools.repeat")
def i_repeat(I, x, times=None):
    return endless(lambda: x) if times is None else LIter([x] * I.index_int(times))


@impl("itertools.islice")
def i_islice(I, xs, *a):
    if isinstance(xs, LIter) and len(a) == 1:
        out = LIter()
        for _ in range(I.index_int(a[0])):
            try:
                out.append(I.take(xs))
            except IndexError:
                break
        return out
    return LIter(itertools.islice(I.iterate(xs), *[None if x is None else I.index_int(x) for x in a]))


@impl("itertools.pairwise")
def i_pairwise(I, xs):
    v = I.iterate(xs)
    return LIter(zip(v, v[1:]))


@impl("itertools.chain.from_iterable")
def i_chain_from(I, xs):
    return LIter(y for x in I.iterate(xs) for y in I.iterate(x))


@impl("dataclasses.dataclass", "jax.tree_util.register_dataclass", "jax.tree_util.register_pytree_node_class", "chex.dataclass", "flax.struct.dataclass")
def d_dataclass(I, c=None, **kw):
    if c is None:
        return Partial(Ext("dataclasses.dataclass"), [], kw)
    if isinstance(c, Class):
        c.kind = "dataclass" if c.kind == "class" else c.kind
    return c


@impl("dataclasses.replace")
def d_replace(I, o, **kw):
    d = dict(o.d)
    d.update(kw)
    return Inst(o.cls, d)


@impl("typing.cast")
def ty_cast(I, t, v):
    return v


@impl("typing.overload", "typing.no_type_check", "typing.final", "typing.runtime_checkable", "jaxtyping.jaxtyped", "beartype.beartype", "typing.override")
def ty_transparent(I, f=None, *a, **k):
    if isinstance(f, (Func, Class, Wrapped)):
        return f
    return Wrapped("identity", None, {})


@impl("typing.NamedTuple", "collections.namedtuple")
def ty_namedtuple(I, name, fields=(), defaults=(), **kw):
    if isinstance(fields, str):
        names = fields.replace(",", " ").split()
    else:
        names = [f[0] if isinstance(f, tuple) else f for f in fields]
    dl = list(defaults or ())
    fs = []
    for i, n in enumerate(names):
        j = i - (len(names) - len(dl))
        fs.append((n, dl[j] if j >= 0 else None, j >= 0))
    return Class(name, [], {}, None, "namedtuple", fs)


@impl("collections.defaultdict")
def c_defaultdict(I, f=None, *a):
    d = LDict()
    d.default_factory = f
    return d


# ------------------------------------------------------------------ dispatch
NONDET = ("random.", "numpy.random.", "secrets.", "uuid.", "time.", "datetime.", "os.urandom", "os.getpid")
IOP = ("os.", "sys.", "logging.", "warnings.", "subprocess.", "pathlib.", "io.", "shutil.", "socket.", "pickle.", "tempfile.", "builtins.open", "numpy.save", "numpy.load", "jax.numpy.save", "jax.numpy.load", "jax.profiler", "atexit.", "threading.", "multiprocessing.", "gc.")

SETTERS = {"set_printoptions", "printoptions", "seterr", "seterrcall", "setbufsize", "setrecursionlimit", "set_int_max_str_digits", "settrace", "setprofile", "setlocale", "setcontext", "simplefilter", "filterwarnings", "resetwarnings", "set_string_function", "setswitchinterval"}


def ext_call(I, path, args, kw):
    path = canon(path)
    f = TABLE.get(path)
    if f is not None:
        return invoke(I, f, path, args, kw)
    if path.split(".")[-1] in SETTERS and path.startswith(("numpy.", "jax.", "sys.", "locale.", "decimal.", "warnings.")):
        I.event("config", "calls %s" % path)
        return ExtCall("context", args, kw, I.loc(), 0)
    if path.startswith("numpy.") and path[6:] in WRITES and args:
        own_write(I, args[0], path)
        if isinstance(args[0], Arr) and path == "numpy.copyto" and len(args) == 2 and not kw and args[0].np:
            args[0].a[...] = asarr(I, args[1], True).a
            return None
        raise Incomplete("unmodelled %s (at %s)" % (path, I.loc()))
    if path.startswith("numpy.") and not path.startswith("numpy.random"):
        g = TABLE.get(JNP + path[6:])
        if g is not None:
            tr = leak(I, "NumPy function %s on a traced value" % path, [args, list(kw.values())])
            nargs = [asarr(I, a, True) if isinstance(a, (list, tuple)) and path[6:] not in ("stack", "concatenate", "block", "hstack", "vstack", "select", "reshape", "zeros", "ones", "full") else a for a in args]
            into = kw.get("out")
            r = invoke(I, g, path, nargs, kw)
            if isinstance(into, tuple) and len(into) == 1:
                into = into[0]
            if isinstance(into, Arr):
                own_write(I, into, "%s(out=...)" % path)
                if isinstance(r, Arr) and np.broadcast_shapes(r.shape, into.shape) == into.shape:
                    into.a[...] = r.a
                return into
            if path[6:] in VIEWS and isinstance(r, Arr) and args and isinstance(args[0], Arr) and args[0].org == "arg" and r.dt == args[0].dt and not (path[6:] in ("array",) and kw.get("copy", True)):
                return Arr(r.a, r.dt, True, False, True, "arg")
            return unflatten(r, [Arr(x.a, x.dt, True, False, True) if isinstance(x, Arr) else x for x in flatten(r)]) if not isinstance(r, (int, tuple, bool)) or isinstance(r, Arr) else r
        if path in ("numpy.errstate",):
            return ExtCall("context", args, kw, I.loc(), 0)
        if path in ("numpy.float64",):
            return py_float(I, *args)
        raise Incomplete("unmodelled %s (at %s)" % (path, I.loc()))
    if path.startswith("math."):
        nm = path[5:]
        for a in args:
            if isinstance(a, Arr) and a.traced():
                I.event("leak", "math.%s on a traced value" % nm)
        m = {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh"}.get(nm, nm)
        if nm == "factorial" and isinstance(args[0], int):
            return math.factorial(args[0])
        if nm == "comb" and all(isinstance(a, int) for a in args):
            return math.comb(*args)
        if nm in ("floor", "ceil", "trunc") and isnum(args[0]):
            return getattr(math, nm)(args[0])
        if nm == "fsum":
            return py_sum(I, args[0])
        if nm == "isclose" and all(isnum(a) for a in args):
            return math.isclose(*[float(a) for a in args])
        if nm == "dist" or nm == "gcd":
            raise Incomplete("math." + nm)
        if nm == "hypot":
            r = _vnorm(I, asarr(I, list(args), True), None, False)
        elif nm == "cbrt" or TABLE.get(JNP + m) is not None:
            r = TABLE[JNP + m](I, *args, **kw)
        else:
            raise Incomplete("unmodelled %s" % path)
        r = Arr(r.a, r.dt, True, True)
        n = r.item()
        if n.op == "const":
            return n.attr if r.dt != "i" else int(n.attr)
        return r
    if path.startswith(("random.", "numpy.random.", "secrets.", "uuid.", "time.", "datetime.")) or path in ("os.urandom", "os.getpid"):
        I.event("nondet", "uses %s" % path)
        return Arr(N.opq("nondet:" + path + ":" + I.loc()), "f", conc=True)
    if path.startswith("os.environ") or path.startswith("os.getenv"):
        I.event("config" if path.endswith(("update", "setdefault", "pop", "__setitem__", "putenv")) else "env-read", "%s" % path)
        return Tok(path + repr(args))
    if path == "logging.getLogger" or path.startswith(("warnings.filterwarnings", "warnings.simplefilter")):
        if "warnings" in path:
            I.event("config", path)
        return ExtCall(path, args, kw, I.loc(), 0)
    if path.startswith("importlib."):
        return ExtCall(path, args, kw, I.loc(), 0)
    if path.startswith(IOP):
        if path != "logging.NullHandler":
            I.event("io", "calls %s" % path)
        return ExtCall(path, args, kw, I.loc(), 0)
    if path.startswith("jax.random."):
        I.serial += 1
        return ExtCall(path, args, kw, I.loc(), I.serial)
    if path.startswith("jax.config.") or path.startswith("jax.distributed") or path == "jax.clear_caches":
        I.event("config", "calls %s" % path)
        return None
    if path.startswith(("jax.tree_util.register", "jax.tree.register")):
        return args[0] if args else None
    if path.startswith("builtins."):
        p = path.split(".")
        if len(p) == 2 and p[1] in EXC:
            return ExtCall(path, args, kw, I.loc(), 0)
        if len(p) == 3 and args:
            return method_call(I, args[0], p[2], args[1:], kw)
        raise Incomplete("unmodelled %s (at %s)" % (path, I.loc()))
    if path.startswith(("jax.", "numpy.", "scipy.", "functools.", "operator.", "itertools.")) and path not in ("jax.ShapeDtypeStruct",):
        if path in ("jax.Array",):
            raise_(I, "TypeError", "cannot instantiate jax.Array")
        raise Incomplete("unmodelled %s (at %s)" % (path, I.loc()))
    I.serial += 1
    c = ExtCall(path, list(args), dict(kw), I.loc(), I.serial)
    I.calls.append(c)
    return c


VIEWS = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "swapaxes", "moveaxis", "expand_dims", "array", "diagonal"}
WRITES = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "random.shuffle"}


SILENT = {"attr.debug", "attr.isEnabledFor", "attr.getEffectiveLevel", "attr.getChild", "attr.hasHandlers"}


def outward(I, f, args):
    """call of a method of an object made by a module that acts on the outside world"""
    if not isinstance(f, ExtCall) or not f.path.startswith("attr.") or f.path in SILENT:
        return
    o = f
    while isinstance(o, ExtCall) and (o.path.startswith(("attr.", "call:")) or o.path == "item") and o.args:
        o = o.args[0]
    if isinstance(o, ExtCall) and o.path.startswith(IOP):
        if f.path == "attr.addHandler" and args and isinstance(args[0], ExtCall) and args[0].path == "logging.NullHandler":
            return
        I.event("io", "calls %s.%s" % (o.path, f.path[5:]))


def own_write(I, x, what):
    if isinstance(x, Arr) and x.org == "arg":
        I.event("mutation", "%s writes into the caller's array (modifies a NumPy argument)" % what)


def invoke(I, f, path, args, kw):
    try:
        return f(I, *args, **kw)
    except TypeError as e:
        s = str(e)
        if "argument" in s and ("unexpected" in s or "missing" in s or "takes" in s or "multiple values" in s):
            # accept jnp keyword spellings the model does not name
            kw2 = {k: v for k, v in kw.items() if k not in ("x", "a", "x1", "x2", "y", "array", "m", "arr")}
            pos = list(args)
            for k in ("x", "a", "x1", "m", "arr", "array", "x2", "y"):
                if k in kw:
                    pos.append(kw[k])
            if len(kw2) != len(kw):
                return f(I, *pos, **kw2)
            raise Incomplete("call of %s not understood: %s (at %s)" % (path, s, I.loc()))
        raise


def method_call(I, o, name, args, kw):
    if isinstance(o, AtRef):
        if name == "get":
            return arr_getitem(I, o.arr, o.idx)
        if name == "apply":
            cur = arr_getitem(I, o.arr, o.idx)
            return at_update(I, o.arr, o.idx, I.call(args[0], [cur], {}), "set")
        if name in ("set", "add", "multiply", "mul", "divide", "power", "min", "max", "subtract"):
            return at_update(I, o.arr, o.idx, args[0] if args else kw["values"], name)
        raise Incomplete(".at[].%s" % name)
    if isinstance(o, Arr):
        return arr_method(I, o, name, args, kw)
    if isinstance(o, dict):
        return dict_method(I, o, name, args, kw)
    if isinstance(o, list):
        if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
            I.mutated(o, "list.%s" % name)
            if name == "append":
                o.append(args[0])
            elif name == "extend":
                o.extend(I.iterate(args[0]))
            elif name == "insert":
                o.insert(I.index_int(args[0]), args[1])
            elif name == "pop":
                if not o:
                    raise_(I, "IndexError", "pop from empty list")
                return o.pop(*[I.index_int(a) for a in args])
            elif name == "reverse":
                o.reverse()
            elif name == "clear":
                o.clear()
            else:
                raise Incomplete("list.%s" % name)
            return None
        if name == "copy":
            return LList(o)
        if name == "index":
            for i, x in enumerate(o):
                if x is args[0] or I.eq(x, args[0]):
                    return i
            raise_(I, "ValueError", "not in list")
        if name == "count":
            return sum(1 for x in o if x is args[0])
        raise_(I, "AttributeError", "list has no attribute %s" % name)
    if isinstance(o, tuple):
        if name == "index":
            return o.index(args[0])
        if name == "count":
            return o.count(args[0])
        raise_(I, "AttributeError", "tuple has no attribute %s" % name)
    if isinstance(o, set):
        if name in ("add", "discard", "update", "remove", "clear", "pop"):
            I.mutated(o, "set.%s" % name)
            if name == "update":
                o.update(I.iterate(args[0]))
            else:
                getattr(o, name)(*args)
            return None
        r = getattr(set, name)(o, *args)
        return LSet(r) if isinstance(r, set) else r
    if isinstance(o, str):
        if name == "join":
            return "<str>"
        if name == "format":
            return "<str>"
        return getattr(o, name)(*args, **kw)
    if isinstance(o, range):
        return getattr(o, name)(*args)
    if isinstance(o, (int, Fraction)):
        if name == "item":
            raise_(I, "AttributeError", "number has no attribute item")
        if name == "is_integer":
            return Fraction(o).denominator == 1
        raise_(I, "AttributeError", "number has no attribute %s" % name)
    if isinstance(o, Inst):
        if name == "_replace":
            d = dict(o.d)
            for k, v in kw.items():
                if k not in d:
                    raise_(I, "ValueError", "unexpected field %s" % k)
                d[k] = v
            return Inst(o.cls, d)
        if name == "_asdict":
            return LDict(o.d)
    if isinstance(o, Class):
        if name == "_make":
            return I.instantiate(o, I.iterate(args[0]), {})
    if isinstance(o, Wrapped):
        if name in ("defjvp", "defvjp", "defjvps", "def_jvp", "def_vjp"):
            return args[0] if args else None
        if name in ("lower", "trace", "eval_shape", "cache_clear", "cache_info", "clear_cache"):
            raise Incomplete("%s" % name)
        raise_(I, "AttributeError", name)
    if isinstance(o, DType):
        raise Incomplete("dtype.%s" % name)
    if type(o).__name__ == "Super":
        return None
    if isinstance(o, Tok):
        return I.call(Tok(o.name + "." + name), args, kw)
    raise Incomplete("method %s of %r (at %s)" % (name, o, I.loc()))


def dict_method(I, o, name, args, kw):
    if name == "get":
        k = I.hkey(args[0])
        if k in o:
            return o[k]
        return args[1] if len(args) > 1 else kw.get("default")
    if name == "items":
        return LList((k, v) for k, v in o.items())
    if name == "keys":
        return LList(o.keys())
    if name == "values":
        return LList(o.values())
    if name == "copy":
        return LDict(o)
    if name in ("update", "pop", "setdefault", "clear", "popitem", "__setitem__"):
        if name == "setdefault":
            k = I.hkey(args[0])
            if k not in o:
                I.mutated(o, "dict.setdefault")
                o[k] = args[1] if len(args) > 1 else None
            elif getattr(o, "origin", "fresh") != "fresh":
                # mutates whenever the key is absent
                I.mutated(o, "dict.setdefault")
            return o[k]
        I.mutated(o, "dict.%s" % name)
        if name == "update":
            if args:
                o.update(args[0] if isinstance(args[0], dict) else dict(I.iterate(args[0])))
            o.update(kw)
            return None
        if name == "pop":
            k = I.hkey(args[0])
            if k in o:
                return o.pop(k)
            if len(args) > 1:
                return args[1]
            raise_(I, "KeyError", repr(k))
        if name == "clear":
            o.clear()
            return None
        if name == "__setitem__":
            o[I.hkey(args[0])] = args[1]
            return None
    if name == "__getitem__":
        return I.getitem(o, args[0])
    if name == "__contains__":
        return I.hkey(args[0]) in o
    raise Incomplete("dict.%s" % name)


def arr_method(I, x, name, args, kw):
    if name == "astype":
        return cast(I, x, dtype_name(args[0] if args else kw["dtype"]))
    if name in ("item", "tolist", "__float__", "__int__", "__bool__", "__index__", "__array__", "tobytes"):
        if x.traced():
            I.event("leak", ".%s() on a traced value" % name)
        if name == "item" and args:
            return hostval(I, Arr(obj(x.a.reshape(-1)[I.index_int(args[0])]), x.dt, True))
        if name == "item" or name.startswith("__"):
            if x.size != 1:
                raise_(I, "ValueError", "can only convert an array of size 1 to a Python scalar")
            return hostval(I, x)
        if x.ndim == 0:
            return hostval(I, x)

        def go(a):
            return LList(go(y) for y in a) if isinstance(a, np.ndarray) and a.ndim else hostval(I, Arr(obj(a)))
        return go(x.a)
    if name == "copy":
        return Arr(x.a.copy(), x.dt, x.conc, x.weak, x.np)
    if name in ("block_until_ready", "conj", "conjugate"):
        return x
    if name in ("reshape", "ravel", "transpose", "squeeze", "swapaxes", "view") and x.org == "arg":
        r = arr_method(I, Arr(x.a, x.dt, x.conc, x.weak, x.np), name, args, kw)
        return Arr(r.a, r.dt, r.conc, r.weak, r.np, "arg") if isinstance(r, Arr) else r
    if name in ("fill", "sort", "partition", "put", "resize", "itemset") and x.np:
        own_write(I, x, ".%s()" % name)
        if name == "fill":
            x.a[...] = asarr(I, args[0]).item()
            return None
        raise Incomplete("array method %s (at %s)" % (name, I.loc()))
    if name in ("reshape",):
        s = kw.get("shape", args[0] if len(args) == 1 else tuple(args))
        return j_reshape(I, x, s)
    if name in ("ravel", "flatten"):
        return j_ravel(I, x)
    if name == "transpose":
        ax = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else (tuple(args) or None)
        return j_transpose(I, x, ax)
    if name in ("__add__", "__radd__", "__mul__", "__rmul__", "__sub__", "__truediv__", "__pow__", "__matmul__"):
        m = {"add": "Add", "radd": "Add", "mul": "Mult", "rmul": "Mult", "sub": "Sub", "truediv": "Div", "pow": "Pow", "matmul": "MatMult"}[name.strip("_")]
        return binop(I, m, x, args[0])
    if name == "__rsub__":
        return binop(I, "Sub", args[0], x)
    if name in ("__gt__", "__lt__", "__eq__", "__ge__", "__le__"):
        return compare(I, {"gt": ">", "lt": "<", "eq": "==", "ge": ">=", "le": "<="}[name.strip("_")], x, args[0])
    if name == "__neg__":
        return unop(I, "USub", x)
    if name == "__abs__":
        return py_abs(I, x)
    if name == "__getitem__":
        return arr_getitem(I, x, args[0])
    if name == "__len__":
        return py_len(I, x)
    if name == "fill":
        raise_(I, "AttributeError", "fill")
    f = TABLE.get(JNP + name)
    if f is None:
        raise Incomplete("array method %s (at %s)" % (name, I.loc()))
    return invoke(I, f, JNP + name, [x] + list(args), kw)
