"""Abstract values of the interpreter."""
from fractions import Fraction
import numpy as np
import nodes as N


class AbsRaise(Exception):
    """the analysed program certainly raises here"""

    def __init__(self, etype, msg="", loc=None, value=None):
        super().__init__("%s: %s" % (etype, msg))
        self.etype, self.msg, self.loc, self.value = etype, msg, loc, value


class Incomplete(Exception):
    """the analysis does not understand a construct"""

    def __init__(self, why, loc=None):
        super().__init__(why)
        self.why, self.loc = why, loc


class Raised:
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "Raised(%s)" % self.e


def _coerce1(x):
    if isinstance(x, N.Node):
        return x
    if isinstance(x, (bool, np.bool_)):
        return N.boolean(bool(x))
    if isinstance(x, (int, np.integer)):
        return N.const(int(x))
    if isinstance(x, Fraction):
        return N.const(x)
    if isinstance(x, (float, np.floating)):
        return N.const(float(x))
    raise Incomplete("cannot coerce %r" % (x,))


_coerce = np.frompyfunc(_coerce1, 1, 1)


def obj(a):
    """object ndarray of Nodes"""
    if isinstance(a, N.Node):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if not isinstance(a, np.ndarray):
        r = np.empty((), dtype=object)
        r[()] = _coerce1(a)
        return r
    r = _coerce(a)
    if not isinstance(r, np.ndarray):
        return obj(r)
    return r


RANK = {"b": 0, "i": 1, "f16": 2, "f32": 3, "f": 4, "c": 5}


class Arr:
    __slots__ = ("a", "dt", "conc", "weak", "np", "org")

    def __init__(self, a, dt="f", conc=False, weak=False, isnp=False, org=None):
        self.org = org
        self.a = obj(a) if not (isinstance(a, np.ndarray) and a.dtype == object) else a
        if isinstance(self.a, N.Node):
            self.a = obj(self.a)
        self.dt, self.conc, self.weak, self.np = dt, conc, weak, isnp

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    def item(self):
        return self.a.reshape(-1)[0]

    def nodes(self):
        return list(self.a.reshape(-1))

    def traced(self):
        """would this be a tracer when the caller's arguments are traced?"""
        return not self.conc

    def depends(self):
        return any(N.deps(n) for n in self.nodes())

    def __repr__(self):
        return "Arr%s(%s)" % (self.shape, ", ".join(N.show(n, 4) for n in self.nodes()[:6]))


class DType:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "DType(%s)" % self.name


class Ext:
    """reference to an external (not analysed) name, by canonical dotted path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class ExtCall:
    """result of an external call whose effect is not modelled"""

    def __init__(self, path, args, kwargs, loc, serial):
        self.path, self.args, self.kwargs, self.loc, self.serial = path, args, kwargs, loc, serial

    def __repr__(self):
        return "%s(%s)" % (self.path, ", ".join([repr(a) for a in self.args] + ["%s=%r" % kv for kv in self.kwargs.items()]))


class Tok:
    """opaque caller-supplied object"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Tok(%s)" % self.name

    def __eq__(self, o):
        return isinstance(o, Tok) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class LList(list):
    origin = "fresh"


class LIter(LList):
    """one-shot iterator: its remaining items; more() supplies the next one of an infinite iterator, cut: longer than was followed"""
    more = None
    cut = False


class LSet(set):
    origin = "fresh"


class LDict(dict):
    origin = "fresh"
    __hash__ = None


class Func:
    def __init__(self, node, env, module, name, defaults, kwdefaults, cls=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.attrs = {}
        self.origin = "fresh"
        self.doc = None

    def __repr__(self):
        return "Func(%s)" % self.name


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class Wrapped:
    """callable transformed by the library (jit, vmap, grad, ...)"""

    def __init__(self, kind, f, opts):
        self.kind, self.f, self.opts = kind, f, opts
        self.attrs = {}

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.f)


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Method:
    """method of a builtin abstract value"""

    def __init__(self, obj_, name):
        self.obj, self.name = obj_, name


class Class:
    def __init__(self, name, bases, ns, module, kind, fields):
        self.name, self.bases, self.ns, self.module, self.kind, self.fields = name, bases, ns, module, kind, fields
        self.origin = "fresh"

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, Class):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return "Class(%s)" % self.name


class Inst:
    def __init__(self, cls, d):
        self.cls, self.d = cls, d
        self.origin = "fresh"

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, self.d)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.ns = LDict()
        self.ns.origin = "module"
        self.done = False
        self.tree = None
        self.origin = "module"

    def __repr__(self):
        return "Module(%s)" % self.name


class Env:
    def __init__(self, parent, module, origin="fresh"):
        self.vars, self.parent, self.module, self.origin = {}, parent, module, origin
        self.globals, self.nonlocals = set(), set()
        self.kept = False  # captured by a function that outlives the call


def flatten(v):
    """pytree leaves"""
    if isinstance(v, (tuple, list)):
        return [l for x in v for l in flatten(x)]
    if isinstance(v, dict):
        return [l for k in sorted(v, key=repr) for l in flatten(v[k])]
    if isinstance(v, Inst):
        return [l for x in v.d.values() for l in flatten(x)]
    if v is None:
        return []
    return [v]


def unflatten(proto, leaves):
    """rebuild a pytree of proto's structure from an iterator of leaves"""
    it = iter(leaves)

    def go(p):
        if isinstance(p, tuple):
            return tuple(go(x) for x in p)
        if isinstance(p, list):
            return LList(go(x) for x in p)
        if isinstance(p, dict):
            d = {k: go(p[k]) for k in sorted(p, key=repr)}
            r = LDict()
            for k in p:
                r[k] = d[k]
            return r
        if isinstance(p, Inst):
            return Inst(p.cls, {k: go(x) for k, x in p.d.items()})
        if p is None:
            return None
        return next(it)
    return go(proto)
