"""Abstract interpreter: Python syntax tree -> value graph + effects.

Every statement of the analysed functions is interpreted over abstract values
(values.py); array arguments are arrays of symbols.  External libraries are
modelled by name (lib.py).  The repository is only parsed, never imported.
"""
import ast
import os
from fractions import Fraction
import math
import sys

import nodes as N
from nodes import Node
import ival
from values import *

sys.setrecursionlimit(20000)


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class PathLimit(Exception):
    pass


class Event:
    def __init__(self, kind, detail, file, line, func, chain):
        self.kind, self.detail, self.file, self.line, self.func, self.chain = kind, detail, file, line, func, chain

    def key(self):
        return (self.kind, self.detail, self.file, self.line)

    def __repr__(self):
        return "%s: %s at %s:%s in %s" % (self.kind, self.detail, self.file, self.line, self.func)


_PI_MULT = [Fraction(p, q) for p in range(1, 13) for q in (1, 2, 3, 4, 6, 8)] + [Fraction(1, 180)]


def float_literal(v):
    """exact reading of a float literal"""
    if v != v or math.isinf(v):
        return Arr(N.const(v), "f", conc=True, weak=True)
    d = Fraction(repr(v)) if "e" not in repr(v) else Fraction(repr(v))
    digits = len(repr(v).split("e")[0].replace(".", "").replace("-", "").strip("0"))
    if digits >= 14:
        for k in _PI_MULT:
            if abs(float(k) * math.pi - v) <= 2 * math.ulp(v):
                return Arr(N.mul(N.const(k), N.PI), "f", conc=True, weak=True)
        for k, nd in ((180 / math.pi, N.div(N.const(180), N.PI)), (1 / math.pi, N.div(N.ONE, N.PI)), (math.pi ** 2, N.mul(N.PI, N.PI)), (4 * math.pi ** 2, N.mul(N.const(4), N.mul(N.PI, N.PI))),
                      (2 ** .5, N.sqrt(N.TWO)), (3 ** .5, N.sqrt(N.const(3)))):
            if abs(k - v) <= 2 * math.ulp(v):
                return Arr(nd, "f", conc=True, weak=True)
        f = d.limit_denominator(10000)
        if float(f) == v:
            return f
    return d


def isnum(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


class Interp:
    def __init__(self, src_root, package="astrodynx"):
        import lib
        import lib_more
        self.lib = lib
        self.src, self.package = src_root, package
        self.modules = {}
        self.events = []
        self._evkeys = set()
        self.stack = []            # (func name, file)
        self.file = "?"
        self.node = None
        self.depth = 0
        self.loop_depth = 0
        self.script, self.trace, self.dcache = [], [], {}
        self.hostops = []          # arithmetic between Python numbers that can fail or leave the reals
        self.calls = []            # recorded external calls on the current path
        self.serial = 0
        self.analysed = {}         # function qualname -> file:line
        self.call_sites = 0
        self.stmts = 0
        self.fuel = 400000
        self.loop_sites = {}       # (file,line,kind) -> info
        self.fresh = 0
        self.importing = 0

    # ------------------------------------------------------------ utilities
    def loc(self):
        return "%s:%s" % (self.rel(self.file), getattr(self.node, "lineno", "?"))

    def rel(self, f):
        try:
            i = f.index("src/")
            return f[i:]
        except ValueError:
            return f

    def event(self, kind, detail):
        fn = self.stack[-1][0] if self.stack else "<module>"
        e = Event(kind, detail, self.rel(self.file), getattr(self.node, "lineno", 0), fn, [s[0] for s in self.stack])
        if e.key() not in self._evkeys:
            self._evkeys.add(e.key())
            self.events.append(e)

    def reset_events(self):
        self.events, self._evkeys = [], set()

    def incomplete(self, why):
        raise Incomplete("%s (at %s)" % (why, self.loc()))

    def fresh_sym(self, p="$t"):
        self.fresh += 1
        return N.sym("%s%d" % (p, self.fresh))

    # ------------------------------------------------------------ modules
    def mod_path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return q if os.path.exists(q) else None
        return p + ".py" if os.path.exists(p + ".py") else None

    def is_internal(self, name):
        return name == self.package or name.startswith(self.package + ".")

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if not self.is_internal(name):
            return Ext(name)
        if name == self.package + "._version":
            return Ext(name)
        path = self.mod_path(name)
        if path is None:
            raise AbsRaise("ModuleNotFoundError", "no module %s" % name, self.loc())
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path)
        self.modules[name] = m
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m.src = src
        m.tree = ast.parse(src, path)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        m.ns["__doc__"] = ast.get_docstring(m.tree)
        env = Env(None, m, "module")
        env.vars = m.ns
        m.env = env
        sv = (self.file, self.node, self.stack, self.depth, self.importing)
        self.file, self.stack, self.depth, self.importing = path, [], 0, self.importing + 1
        try:
            self.block(m.tree.body, env)
        finally:
            self.file, self.node, self.stack, self.depth, self.importing = sv
        m.done = True
        if "." in name:
            par = self.modules.get(name.rsplit(".", 1)[0])
            if par is not None:
                par.ns.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def mod_attr(self, m, attr):
        if attr in m.ns:
            return m.ns[attr]
        sub = m.name + "." + attr
        if sub in self.modules:
            return self.modules[sub]
        if self.mod_path(sub) is not None and not m.done:
            return self.load(sub)
        if "__getattr__" in m.ns:
            return self.call(m.ns["__getattr__"], [attr], {})
        raise AbsRaise("AttributeError", "module %s has no attribute %s" % (m.name, attr), self.loc())

    def do_import(self, st, env):
        if isinstance(st, ast.Import):
            for al in st.names:
                m = self.load(al.name)
                if al.asname:
                    self.store_name(al.asname, m, env)
                else:
                    top = al.name.split(".")[0]
                    self.store_name(top, self.load(top), env)
            return
        base = st.module or ""
        if st.level:
            pk = env.module.name
            if not env.module.path.endswith("__init__.py"):
                pk = pk.rsplit(".", 1)[0]
            for _ in range(st.level - 1):
                pk = pk.rsplit(".", 1)[0]
            base = pk + ("." + base if base else "")
        if base == "__future__":
            return
        m = self.load(base)
        for al in st.names:
            if al.name == "*":
                if isinstance(m, Module):
                    names = m.ns.get("__all__") or [k for k in m.ns if not k.startswith("_")]
                    for k in names:
                        self.store_name(k, self.mod_attr(m, k), env)
                else:
                    self.incomplete("star import from %s" % base)
                continue
            if isinstance(m, Module):
                if al.name in m.ns:
                    v = m.ns[al.name]
                else:
                    sub = base + "." + al.name
                    if sub in self.modules or self.mod_path(sub) is not None:
                        v = self.load(sub)
                    else:
                        raise AbsRaise("ImportError", "cannot import name %s from %s" % (al.name, base), self.loc())
            else:
                v = self.getattr(m, al.name)
            self.store_name(al.asname or al.name, v, env)

    # ------------------------------------------------------------ environment
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars and not (name in e.globals):
                return e.vars[name]
            e = e.parent
        if name in env.module.ns:
            return env.module.ns[name]
        b = self.lib.builtin(name)
        if b is not None:
            return b
        raise AbsRaise("NameError", "name %s is not defined" % name, self.loc())

    def store_name(self, name, v, env):
        if name in env.globals:
            if self.depth > 0:
                self.event("global-write", "assignment to module variable %s" % name)
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    if e.origin == "module":
                        self.event("global-write", "assignment to variable %s kept between calls" % name)
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def mutated(self, o, what):
        org = getattr(o, "origin", "fresh")
        if org in ("module", "arg", "default") and self.depth > 0:
            self.event("mutation", "%s of %s object" % (what, {"arg": "the caller's", "default": "a default-argument", "module": "a module-level"}[org]))

    def own(self, v, org):
        """mark containers created outside function calls"""
        if isinstance(v, (LList, LDict, LSet, Func, Class, Inst)) and v.origin == "fresh":
            v.origin = org
            if isinstance(v, LDict):
                for x in v.values():
                    self.own(x, org)
            elif isinstance(v, LList):
                for x in v:
                    self.own(x, org)
            elif isinstance(v, Inst):
                for x in v.d.values():
                    self.own(x, org)
            elif isinstance(v, Func):
                # what a function kept between calls captures is kept with it
                self.own_all(v.defaults, org)
                self.own_all(v.kwdefaults.values(), org)
                self.own_all(v.attrs.values(), org)
                e = v.env
                while e is not None and e.parent is not None and not e.kept:
                    e.origin, e.kept = org, True
                    self.own_all(e.vars.values(), org)
                    e = e.parent
            elif isinstance(v, Class):
                self.own_all(v.ns.values(), org)
        elif isinstance(v, tuple):
            self.own_all(v, org)
        elif isinstance(v, Wrapped):
            self.own(v.f, org)
        elif isinstance(v, Partial):
            self.own(v.f, org)
            self.own_all(v.args, org)
            self.own_all(v.kwargs.values(), org)
        elif isinstance(v, Bound):
            self.own(v.f, org)
            self.own(v.self_, org)
        return v

    def own_all(self, vs, org):
        for x in list(vs):
            self.own(x, org)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.node = s
        self.stmts += 1
        self.fuel -= 1
        if self.fuel < 0:
            self.incomplete("analysis budget exceeded")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.incomplete("statement %s" % type(s).__name__)
        m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Import(self, s, env):
        self.do_import(s, env)

    s_ImportFrom = s_Import

    def s_Global(self, s, env):
        env.globals.update(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            self.node = d
            v = self.decorate(self.ev(d, env), v)
        if self.depth == 0:
            self.own(v, "module")
        self.store_name(s.name, v, env)

    def make_func(self, s, env, name=None):
        a = s.args
        own = (lambda v: self.own(v, "default")) if self.depth == 0 else (lambda v: v)
        dd = [own(self.ev(d, env)) for d in a.defaults]
        kd = {k.arg: own(self.ev(d, env)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = Func(s, env, env.module, name or getattr(s, "name", "<lambda>"), dd, kd)
        f.file = self.file
        if self.depth == 0:
            f.origin = "module"
        return f

    def decorate(self, d, v):
        return self.call(d, [v], {})

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        ns_env = Env(env, env.module, "module" if self.depth == 0 else "fresh")
        fields = []
        for b in bases:
            if isinstance(b, Class):
                fields.extend(b.fields)
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.node = st
                if st.value is not None:
                    dv = self.own(self.ev(st.value, ns_env), "default")
                    ns_env.vars[st.target.id] = dv
                    fields = [f for f in fields if f[0] != st.target.id] + [(st.target.id, dv, True)]
                else:
                    fields = [f for f in fields if f[0] != st.target.id] + [(st.target.id, None, False)]
            else:
                self.stmt(st, ns_env)
        kind = "class"
        for b in bases:
            if isinstance(b, Ext) and b.path.endswith("NamedTuple"):
                kind = "namedtuple"
            elif isinstance(b, Ext) and b.path in ("equinox.Module",):
                kind = "dataclass"
            elif isinstance(b, Class):
                kind = b.kind
        c = Class(s.name, bases, ns_env.vars, env.module, kind, fields)
        c.node, c.file = s, self.file
        if self.depth == 0:
            c.origin = "module"
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.store_name(s.name, v, env)

    def s_Return(self, s, env):
        raise Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        if self.depth == 0:
            self.own(v, "module")
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            v = self.ev(s.value, env)
            if self.depth == 0:
                self.own(v, "module")
            self.assign(s.target, v, env)

    def s_TypeAlias(self, s, env):
        pass

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
        elif isinstance(t, ast.Attribute):
            cur = self.getattr(self.ev(t.value, env), t.attr)
        else:
            cur = self.getitem(self.ev(t.value, env), self.ev(t.slice, env))
        v = self.ev(s.value, env)
        self.node = s
        if isinstance(cur, LList) and isinstance(s.op, ast.Add):
            self.mutated(cur, "in-place extension")
            cur.extend(self.iterate(v))
            return
        if isinstance(cur, LDict) and isinstance(s.op, ast.BitOr):
            self.mutated(cur, "in-place update")
            cur.update(v)
            return
        # a JAX operand on the right takes the operation over: the left array is then not written
        if isinstance(cur, Arr) and cur.org == "arg" and not (isinstance(v, Arr) and v.org is None and not v.np and not v.conc):
            self.event("mutation", "in-place operator on the caller's array (modifies a NumPy argument)")
        r = self.binop(type(s.op).__name__, cur, v)
        self.assign(t, r, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise AbsRaise("ValueError", "not enough values to unpack", self.loc())
                parts = vs[:i] + [LList(vs[i:len(vs) - k])] + vs[len(vs) - k:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(vs) != len(t.elts):
                raise AbsRaise("ValueError", "cannot unpack %d values into %d" % (len(vs), len(t.elts)), self.loc())
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, LList(self.iterate(v)), env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, v)
        else:
            self.incomplete("assignment target")

    def setitem(self, o, k, v):
        if isinstance(o, (LDict, LList)):
            self.mutated(o, "item assignment")
            try:
                o[self.hkey(k) if isinstance(o, LDict) else self.index_int(k)] = v
            except IndexError:
                raise AbsRaise("IndexError", "list assignment index out of range", self.loc())
            return
        if isinstance(o, Arr):
            if not o.np:
                raise AbsRaise("TypeError", "JAX arrays are immutable (item assignment)", self.loc())
            if isinstance(v, Arr) and v.traced():
                self.event("leak", "NumPy array element set from a traced value")
            self.lib.own_write(self, o, "item assignment")
            b = self.lib.at_update(self, o, k, v, "set")
            o.a[...] = b.a
            return
        if isinstance(o, Ext) and "environ" in o.path:
            self.event("config", "modifies %s" % o.path)
            return
        if isinstance(o, (Ext, Tok, ExtCall)):
            self.event("mutation" if isinstance(o, Tok) else "config", "item assignment on %r" % o)
            return
        if isinstance(o, Inst):
            m = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(Bound(m, o), [k, v], {})
                return
        self.incomplete("item assignment on %r" % (type(o).__name__,))

    def setattr(self, o, a, v):
        if isinstance(o, Inst):
            if o.cls.kind == "namedtuple":
                raise AbsRaise("AttributeError", "can't set attribute", self.loc())
            self.mutated(o, "attribute assignment")
            o.d[a] = v
            return
        if isinstance(o, (Func, Wrapped)):
            self.mutated(o, "attribute assignment")
            o.attrs[a] = v
            return
        if isinstance(o, Class):
            self.mutated(o, "class attribute assignment")
            o.ns[a] = v
            return
        if isinstance(o, Module):
            if self.depth > 0:
                self.event("mutation", "assignment to attribute %s of module %s" % (a, o.name))
            o.ns[a] = v
            return
        if isinstance(o, Tok):
            self.event("mutation", "assignment to attribute %s of the caller's object" % a)
            return
        if isinstance(o, (Ext, ExtCall)):
            self.event("config", "assignment to attribute %s of %r" % (a, o))
            return
        self.incomplete("attribute assignment on %s" % type(o).__name__)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, (LDict, LList)):
                    self.mutated(o, "item deletion")
                    try:
                        del o[self.hkey(k) if isinstance(o, LDict) else self.index_int(k)]
                    except (KeyError, IndexError):
                        raise AbsRaise("KeyError", repr(k), self.loc())
                elif isinstance(o, (Tok,)):
                    self.event("mutation", "item deletion on the caller's object")

    def s_If(self, s, env):
        c = self.truthy(self.ev(s.test, env), "if")
        self.block(s.body if c else s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while True:
            self.node = s
            c = self.ev(s.test, env)
            if isinstance(c, Arr) and c.traced():
                self.event("dynloop", "Python while loop on a run-time value")
            if not self.truthy(c, "while"):
                self.block(s.orelse, env)
                break
            n += 1
            if n > 200:
                self.event("dynloop", "Python while loop does not end statically")
                self.incomplete("while loop not statically bounded")
            try:
                self.block(s.body, env)
            except Break:
                break
            except Continue:
                continue

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        self.node = s
        for x in self.lazily(it):
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Break:
                break
            except Continue:
                continue
        else:
            self.block(s.orelse, env)

    def lazily(self, it):
        if not isinstance(it, LIter):
            yield from list(self.iterate(it))
            return
        for k in range(10**4):
            try:
                x = self.take(it)
            except IndexError:
                return
            yield x
        self.incomplete("infinite iterator")

    def s_Break(self, s, env):
        raise Break()

    def s_Continue(self, s, env):
        raise Continue()

    def s_Assert(self, s, env):
        v = self.ev(s.test, env)
        if isinstance(v, Arr) and v.traced():
            self.event("leak", "assert on a traced value")
            return
        if isinstance(v, (Tok, ExtCall)):
            return
        if not self.truthy(v, "assert"):
            raise AbsRaise("AssertionError", "", self.loc())

    def s_Raise(self, s, env):
        if s.exc is None:
            raise AbsRaise("Exception", "re-raise", self.loc())
        v = self.ev(s.exc, env)
        name = "Exception"
        if isinstance(v, ExtCall):
            name = v.path.split(".")[-1]
        elif isinstance(v, Ext):
            name = v.path.split(".")[-1]
        elif isinstance(v, Inst):
            name = v.cls.name
        elif isinstance(v, Class):
            name = v.name
        raise AbsRaise(name, repr(v), self.loc(), v)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except AbsRaise as e:
                for h in s.handlers:
                    if self.handler_matches(h, e, env):
                        if h.name:
                            env.vars[h.name] = e.value if e.value is not None else ExtCall("builtins." + e.etype, [e.msg], {}, e.loc, 0)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    s_TryStar = s_Try

    def handler_matches(self, h, e, env):
        if h.type is None:
            return True
        t = self.ev(h.type, env)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            n = x.path.split(".")[-1] if isinstance(x, Ext) else getattr(x, "name", "")
            if n in ("Exception", "BaseException", e.etype):
                return True
            if n == "LookupError" and e.etype in ("KeyError", "IndexError"):
                return True
            if n == "ImportError" and e.etype == "ModuleNotFoundError":
                return True
            if n == "ArithmeticError" and e.etype in ("ZeroDivisionError", "OverflowError"):
                return True
        return False

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, ExtCall):
                p = v.path
                if any(k in p for k in ("enable_x64", "disable_x64", "default_matmul_precision", "numpy_dtype_promotion")):
                    self.event("precision-context", "%s" % v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.block(s.body, env)

    def s_Match(self, s, env):
        subj = self.ev(s.subject, env)
        for c in s.cases:
            b = {}
            r = self.match(c.pattern, subj, b, env)
            if r is True:
                for k, v in b.items():
                    self.store_name(k, v, env)
                if c.guard is not None and not self.truthy(self.ev(c.guard, env), "match guard"):
                    continue
                self.block(c.body, env)
                return

    def match(self, p, v, b, env):
        if isinstance(p, ast.MatchValue):
            return self.truthy(self.compare("Eq", v, self.ev(p.value, env)), "match")
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, b, env):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, b, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, list)) or len(v) != len(p.patterns):
                return False
            return all(self.match(q, x, b, env) for q, x in zip(p.patterns, v))
        self.incomplete("match pattern %s" % type(p).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.incomplete("expression %s" % type(e).__name__)
        old = self.node
        self.node = e if hasattr(e, "lineno") else old
        N.CURRENT_LOC[0] = self.loc()
        try:
            return m(e, env)
        finally:
            self.node = old

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return float_literal(v)
        if isinstance(v, complex):
            self.incomplete("complex literal")
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return LList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return LSet(self.hkey(x) for x in self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = LDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, dict):
                    d.update(x)
                elif isinstance(x, Tok):
                    d["**" + x.name] = x
                else:
                    self.incomplete("dict unpacking")
            else:
                d[self.hkey(self.ev(k, env))] = self.ev(v, env)
        return d

    def hkey(self, k):
        if isinstance(k, Arr):
            if k.size == 1 and k.item().op == "const":
                v = k.item().attr
                return int(v) if v.denominator == 1 else v
            self.event("leak", "traced value used as a key")
            self.incomplete("abstract dictionary key")
        return k

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
        return "<fstring>"

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.store_name(e.target.id, v, env)
        return v

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_IfExp(self, e, env):
        c = self.truthy(self.ev(e.test, env), "conditional expression")
        return self.ev(e.body if c else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truthy(v, "and/or")
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        o = type(e.op).__name__
        if o == "Not":
            return not self.truthy(v, "not")
        if isinstance(v, (Arr,)):
            return self.lib.unop(self, o, v)
        if isnum(v) or isinstance(v, bool):
            v = int(v) if isinstance(v, bool) else v
            return -v if o == "USub" else +v if o == "UAdd" else ~v
        if isinstance(v, Inst):
            d = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[o]
            m = v.cls.lookup(d)
            if m is not None:
                return self.call(Bound(m, v), [], {})
        if isinstance(v, (LList, tuple)):
            raise AbsRaise("TypeError", "bad operand type for unary %s" % o, self.loc())
        self.incomplete("unary %s on %r" % (o, v))

    def e_BinOp(self, e, env):
        l = self.ev(e.left, env)
        r = self.ev(e.right, env)
        return self.binop(type(e.op).__name__, l, r)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul",
              "Mod": "mod", "FloorDiv": "floordiv", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}

    def binop(self, o, l, r):
        N.CURRENT_LOC[0] = self.loc()
        if isinstance(l, Inst) or isinstance(r, Inst):
            d = self.DUNDER.get(o)
            if isinstance(l, Inst):
                m = l.cls.lookup("__%s__" % d)
                if m is not None:
                    return self.call(Bound(m, l), [r], {})
            if isinstance(r, Inst):
                m = r.cls.lookup("__r%s__" % d)
                if m is not None:
                    return self.call(Bound(m, r), [l], {})
        if isinstance(l, Arr) or isinstance(r, Arr):
            for x in (l, r):
                if isinstance(x, (LList, tuple)):
                    a = l if isinstance(l, Arr) else r
                    if not a.np:
                        raise AbsRaise("TypeError", "unsupported operand: JAX array and %s" % type(x).__name__, self.loc())
                if x is None or isinstance(x, (str, dict)):
                    raise AbsRaise("TypeError", "unsupported operand types for %s" % o, self.loc())
                if isinstance(x, (Tok, ExtCall, Ext)):
                    return ExtCall("op." + o, [l, r], {}, self.loc(), 0)
            return self.lib.binop(self, o, l, r)
        if isinstance(l, bool) and o not in ("BitAnd", "BitOr", "BitXor"):
            l = int(l)
        if isinstance(r, bool) and o not in ("BitAnd", "BitOr", "BitXor"):
            r = int(r)
        if (isnum(l) or isinstance(l, bool)) and (isnum(r) or isinstance(r, bool)):
            try:
                if o == "Add":
                    return l + r
                if o == "Sub":
                    return l - r
                if o == "Mult":
                    return l * r
                if o == "Div":
                    return Fraction(l) / Fraction(r)
                if o == "Pow":
                    if isinstance(r, int) and abs(r) < 10000:
                        return l ** r if (isinstance(l, Fraction) or r >= 0) else Fraction(l) ** r
                    return Arr(N.power(N.const(l), N.const(r)), "f", conc=True, weak=True)
                if o == "FloorDiv":
                    return math.floor(Fraction(l) / Fraction(r)) if not (isinstance(l, Fraction) or isinstance(r, Fraction)) else Fraction(math.floor(Fraction(l) / Fraction(r)))
                if o == "Mod":
                    return l % r
                if o == "BitAnd":
                    return l & r
                if o == "BitOr":
                    return l | r
                if o == "BitXor":
                    return l ^ r
                if o == "LShift":
                    return l << r
                if o == "RShift":
                    return l >> r
            except ZeroDivisionError:
                raise AbsRaise("ZeroDivisionError", "", self.loc())
        if o == "Add" and isinstance(l, (str,)) and isinstance(r, str):
            return l + r
        if o == "Add" and isinstance(l, LList) and isinstance(r, list):
            return LList(list(l) + list(r))
        if o == "Add" and isinstance(l, tuple) and isinstance(r, tuple):
            return l + r
        if o == "Mult" and isinstance(l, (LList, tuple, str)) and isinstance(r, int):
            return type(l)(l * r) if not isinstance(l, str) else l * r
        if o == "Mult" and isinstance(r, (LList, tuple, str)) and isinstance(l, int):
            return type(r)(r * l) if not isinstance(r, str) else r * l
        if o == "BitOr" and isinstance(l, LDict) and isinstance(r, dict):
            d = LDict(l)
            d.update(r)
            return d
        if isinstance(l, LSet) and isinstance(r, (set,)):
            return LSet({"BitOr": l | r, "BitAnd": l & r, "Sub": l - r, "BitXor": l ^ r}[o])
        if o == "Mod" and isinstance(l, str):
            return "<fstring>"
        if o == "BitOr":
            return ExtCall("types.Union", [l, r], {}, self.loc(), 0)
        if isinstance(l, (Tok, ExtCall, Ext)) or isinstance(r, (Tok, ExtCall, Ext)):
            return ExtCall("op." + o, [l, r], {}, self.loc(), 0)
        raise AbsRaise("TypeError", "unsupported operand types for %s" % o, self.loc())

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = None
        for i, (o, r) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(r, env)
            c = self.compare(type(o).__name__, l, r)
            if i == len(e.ops) - 1:
                return c
            if not self.truthy(c, "chained comparison"):
                return c
            l = r
        return res

    def compare(self, o, l, r):
        N.CURRENT_LOC[0] = self.loc()
        if o in ("Is", "IsNot"):
            v = self.is_(l, r)
            return v if o == "Is" else (not v)
        if o in ("In", "NotIn"):
            v = self.contains(r, l)
            return v if o == "In" else (not v)
        op = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[o]
        if isinstance(l, Arr) or isinstance(r, Arr):
            x = r if isinstance(l, Arr) else l
            if x is None or isinstance(x, (str, dict)):
                if op in ("==", "!="):
                    return op == "!="
                raise AbsRaise("TypeError", "comparison not supported", self.loc())
            if isinstance(x, (Tok, Ext, ExtCall)):
                return Arr(N.opq(("cmp", op, repr(l), repr(r))), "b")
            return self.lib.compare(self, op, l, r)
        if isinstance(l, (Tok, ExtCall)) or isinstance(r, (Tok, ExtCall)):
            if l is r or (isinstance(l, Tok) and l == r):
                return op in ("==", "<=", ">=")
            return self.decide(N.sym("?%r%s%r" % (l, op, r)))
        try:
            if op == "==":
                return self.eq(l, r)
            if op == "!=":
                return not self.eq(l, r)
            return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]
        except TypeError:
            raise AbsRaise("TypeError", "comparison not supported", self.loc())

    def eq(self, l, r):
        if isinstance(l, (tuple, list)) and isinstance(r, (tuple, list)):
            return type(l) is type(r) and len(l) == len(r) and all(self.eq(x, y) for x, y in zip(l, r))
        if isinstance(l, Arr) or isinstance(r, Arr):
            return self.truthy(self.compare("Eq", l, r), "==")
        if isinstance(l, DType) or isinstance(r, DType):
            a, b = self.lib.dtype_name(l), self.lib.dtype_name(r)
            return a == b
        return l == r

    def is_(self, l, r):
        if l is None or r is None:
            x = r if l is None else l
            if x is None:
                return True
            if isinstance(x, Tok):
                return self.decide(N.sym("?%s is None" % x.name))
            return False
        if isinstance(l, (bool, int, str)) and isinstance(r, (bool, int, str)):
            return l is r or (type(l) is type(r) and l == r)
        if isinstance(l, (Ext, Tok)) or isinstance(r, (Ext, Tok)):
            return l == r
        if isinstance(l, DType) and isinstance(r, DType):
            return l == r
        return l is r

    def contains(self, c, x):
        if isinstance(c, dict):
            return self.hkey(x) in c
        if isinstance(c, (tuple, list)):
            return any(self.eq(x, y) if not isinstance(y, (Tok, ExtCall)) else x is y for y in c)
        if isinstance(c, (set, frozenset)):
            return self.hkey(x) in c
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Arr):
            self.event("leak", "'in' on a traced array")
            self.incomplete("in on array")
        if isinstance(c, (Tok, ExtCall)):
            return self.decide(N.sym("?%r in %r" % (x, c)))
        if isinstance(c, range):
            return x in c
        if isinstance(c, Ext):
            if "environ" in c.path:
                self.event("env-read", "%r in %s" % (x, c.path))
            return self.decide(N.sym("?%r in %r" % (x, c)))
        self.incomplete("in on %r" % (c,))

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def getattr(self, o, a):
        if isinstance(o, Module):
            return self.mod_attr(o, a)
        if isinstance(o, Ext):
            return self.lib.ext_attr(self, o, a)
        if isinstance(o, Arr):
            return self.lib.arr_attr(self, o, a)
        if isinstance(o, Tok):
            return Tok(o.name + "." + a)
        if isinstance(o, Inst):
            if a in o.d:
                return o.d[a]
            v = o.cls.lookup(a)
            if v is not None:
                if isinstance(v, Wrapped) and v.kind == "property":
                    return self.call(v.f, [o], {})
                if isinstance(v, Wrapped) and v.kind == "staticmethod":
                    return v.f
                if isinstance(v, Wrapped) and v.kind == "classmethod":
                    return Bound(v.f, o.cls)
                if isinstance(v, (Func, Wrapped)):
                    return Bound(v, o)
                return v
            if a in ("_replace", "_asdict", "__class__", "_fields", "__dict__"):
                if a == "__class__":
                    return o.cls
                if a == "_fields":
                    return tuple(f[0] for f in o.cls.fields)
                if a == "__dict__":
                    return LDict(o.d)
                return Method(o, a)
            raise AbsRaise("AttributeError", "%s has no attribute %s" % (o.cls.name, a), self.loc())
        if isinstance(o, Class):
            v = o.lookup(a)
            if v is not None:
                if isinstance(v, Wrapped) and v.kind == "staticmethod":
                    return v.f
                if isinstance(v, Wrapped) and v.kind == "classmethod":
                    return Bound(v.f, o)
                return v
            if a == "__name__":
                return o.name
            if a == "_fields":
                return tuple(f[0] for f in o.fields)
            if a in ("_make", "__new__", "_field_defaults"):
                return Method(o, a)
            raise AbsRaise("AttributeError", "%s has no attribute %s" % (o.name, a), self.loc())
        if isinstance(o, (Func, Wrapped, Partial)):
            if not isinstance(o, Partial) and a in o.attrs:
                return o.attrs[a]
            if a == "__name__":
                return getattr(o, "name", "f")
            if a in ("__doc__", "__module__", "__qualname__", "__annotations__"):
                return None
            if isinstance(o, Wrapped) and a == "__wrapped__":
                return o.f
            if isinstance(o, Partial):
                return {"func": o.f, "args": tuple(o.args), "keywords": LDict(o.kwargs)}.get(a)
            if isinstance(o, Wrapped):
                return Method(o, a)
            raise AbsRaise("AttributeError", "function has no attribute %s" % a, self.loc())
        if isinstance(o, ExtCall):
            return ExtCall("attr." + a, [o], {}, self.loc(), 0)
        if isinstance(o, (LList, tuple, LDict, LSet, str, range)) or isnum(o) or isinstance(o, bool):
            if isnum(o) and a in ("real",):
                return o
            if isnum(o) and a == "shape":
                raise AbsRaise("AttributeError", "number has no attribute shape", self.loc())
            return Method(o, a)
        if isinstance(o, DType):
            return Method(o, a) if a not in ("name", "kind", "itemsize") else (o.name if a == "name" else {"f": "f", "i": "i", "b": "b"}.get(o.name[0], "f"))
        if isinstance(o, self.lib.AtRef):
            return Method(o, a)
        if o is None:
            raise AbsRaise("AttributeError", "'NoneType' object has no attribute %s" % a, self.loc())
        if isinstance(o, Super):
            v = o.lookup(a)
            if v is None:
                return Method(o, a)
            return Bound(v, o.self_)
        return Method(o, a)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, (Ext, ExtCall, Class)) and not (isinstance(o, Ext) and "environ" in o.path):
            # generic alias such as PyTree[Any]
            if isinstance(o, Ext):
                return o
            if isinstance(o, Class):
                return o
            k = self.ev(e.slice, env)
            return ExtCall("item", [o, k], {}, self.loc(), 0)
        k = self.ev(e.slice, env)
        return self.getitem(o, k)

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.index_int(self.ev(x, env))
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, env):
        self.incomplete("starred expression")

    def index_int(self, v):
        if isinstance(v, Arr):
            if v.size == 1 and v.item().op == "const" and v.item().attr.denominator == 1:
                return int(v.item().attr)
            self.event("leak", "traced value used as a Python index")
            self.incomplete("abstract index")
        if isinstance(v, Fraction):
            raise AbsRaise("TypeError", "indices must be integers", self.loc())
        return v

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return self.lib.arr_getitem(self, o, k)
        if isinstance(o, dict):
            kk = self.hkey(k)
            if kk in o:
                return o[kk]
            if isinstance(o, LDict) and getattr(o, "default_factory", None) is not None:
                o[kk] = self.call(o.default_factory, [], {})
                return o[kk]
            raise AbsRaise("KeyError", repr(kk), self.loc())
        if isinstance(o, (tuple, list, str, range)):
            if isinstance(k, slice):
                r = o[k]
                return LList(r) if isinstance(o, list) else r
            k = self.index_int(k)
            try:
                return o[k]
            except IndexError:
                raise AbsRaise("IndexError", "index out of range", self.loc())
            except TypeError:
                raise AbsRaise("TypeError", "bad index", self.loc())
        if isinstance(o, Inst) and o.cls.kind == "namedtuple":
            return self.getitem(tuple(o.d.values()), k)
        if isinstance(o, Inst):
            m = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [k], {})
        if isinstance(o, Tok):
            return Tok("%s[%r]" % (o.name, k))
        if isinstance(o, ExtCall):
            return ExtCall("item", [o, k], {}, self.loc(), 0)
        if isinstance(o, self.lib.AtRef):
            return self.lib.AtRef(o.arr, k)
        if isnum(o) or o is None or isinstance(o, bool):
            raise AbsRaise("TypeError", "object is not subscriptable", self.loc())
        if isinstance(o, Method) and o.name == "at":
            return self.lib.AtRef(o.obj, k)
        if isinstance(o, Ext):
            return ExtCall("item", [o, k], {}, self.loc(), 0)
        self.incomplete("subscript of %r" % (type(o).__name__,))

    def e_Call(self, e, env):
        self.call_sites += 1
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = env
            while cls is not None and "__class__cell" not in cls.vars:
                cls = cls.parent
            return Super(cls.vars["__class__cell"], cls.vars["__self__cell"]) if cls else None
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, Inst):
                    v = v.d
                if isinstance(v, Tok):
                    kw["**" + v.name] = v
                    continue
                if not isinstance(v, dict):
                    self.incomplete("** of %r" % (v,))
                for kk, vv in v.items():
                    if kk in kw:
                        raise AbsRaise("TypeError", "multiple values for keyword %s" % kk, self.loc())
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise AbsRaise("TypeError", "multiple values for keyword %s" % k.arg, self.loc())
                kw[k.arg] = v
        if isinstance(f, Ext) and f.path in ("builtins.locals", "builtins.vars", "builtins.globals"):
            if not args:
                if f.path == "builtins.globals" or env.vars is env.module.ns:
                    return env.module.ns
                return LDict(env.vars)
        return self.call(f, args, kw)

    def comp(self, gens, env, emit):
        def go(i, en):
            if i == len(gens):
                emit(en)
                return
            g = gens[i]
            for x in list(self.iterate(self.ev(g.iter, en))):
                self.assign(g.target, x, en)
                if all(self.truthy(self.ev(c, en), "comprehension filter") for c in g.ifs):
                    go(i + 1, en)
        go(0, Env(env, env.module))

    def e_ListComp(self, e, env):
        out = LList()
        self.comp(e.generators, env, lambda en: out.append(self.ev(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        return LIter(self.e_ListComp(e, env))

    def e_SetComp(self, e, env):
        out = LSet()
        self.comp(e.generators, env, lambda en: out.add(self.hkey(self.ev(e.elt, en))))
        return out

    def e_DictComp(self, e, env):
        out = LDict()
        self.comp(e.generators, env, lambda en: out.__setitem__(self.hkey(self.ev(e.key, en)), self.ev(e.value, en)))
        return out

    def yield_to(self, env):
        while env is not None and "__yield__" not in env.vars:
            env = env.parent
        if env is None:
            self.incomplete("generator")
        return env.vars["__yield__"]

    def e_Yield(self, e, env):
        y = self.yield_to(env)
        y.append(self.ev(e.value, env) if e.value is not None else None)
        if len(y) >= 128:
            y.cut = True
            raise Return(None)
        return None

    def e_YieldFrom(self, e, env):
        y = self.yield_to(env)
        for x in self.iterate(self.ev(e.value, env)):
            y.append(x)
        return None

    # ------------------------------------------------------------ iteration / truth
    def take(self, v):
        """next item of an iterator, or raise IndexError"""
        self.mutated(v, "consumption")
        if not v:
            if v.more is not None:
                return v.more()
            if v.cut:
                self.incomplete("long generator")
        return v.pop(0)

    def iterate(self, v):
        if isinstance(v, LIter):
            self.mutated(v, "consumption")
            if v.more is not None or v.cut:
                self.incomplete("infinite iterator")
            r = list(v)
            v.clear()
            return r
        if isinstance(v, (list, tuple, range, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise AbsRaise("TypeError", "iteration over a 0-d array", self.loc())
            return [Arr(v.a[i], v.dt, v.conc, isnp=v.np) for i in range(v.shape[0])]
        if isinstance(v, Inst):
            if v.cls.kind == "namedtuple":
                return list(v.d.values())
            m = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(Bound(m, v), [], {}))
        if isinstance(v, (int, Fraction, bool)) or v is None:
            raise AbsRaise("TypeError", "object is not iterable", self.loc())
        self.incomplete("iteration over %r" % (v,))

    def truthy(self, v, where=""):
        if isinstance(v, LIter):
            return True
        if isinstance(v, Arr):
            if v.size != 1:
                raise AbsRaise("ValueError", "truth value of an array is ambiguous", self.loc())
            n = v.item()
            if v.traced():
                self.event("leak", "Python %s on a traced value" % (where or "truth test"))
            return self.decide(N.n2b(n))
        if isinstance(v, Node):
            return self.decide(v)
        if isinstance(v, Tok):
            if v.name in ("terms", "event", "solver", "controller", "saveat"):
                return True
            return self.decide(N.sym("?bool(%s)" % v.name))
        if isinstance(v, (ExtCall,)):
            if v.path.startswith("op.") or v.path.startswith("attr.") or v.path == "item" or "call:" in v.path:
                return self.decide(N.sym("?bool(%r)" % v))
            return True
        if isinstance(v, Inst):
            m = v.cls.lookup("__bool__")
            if m is not None:
                return self.truthy(self.call(Bound(m, v), [], {}))
            if v.cls.kind == "namedtuple":
                return len(v.d) > 0
            return True
        if isinstance(v, (Func, Ext, Class, Module, Partial, Wrapped, Bound, Method, DType)):
            return True
        return bool(v)

    def decide(self, n):
        """branch on an abstract boolean: follow the current path script"""
        if n.op == "bool":
            return n.attr
        if not N.deps(n):
            r = ival.const_value(n)
            if isinstance(r, bool):
                return r
        neg = False
        while n.op == "not":
            n, neg = n.args[0], not neg
        if n.id in self.dcache:
            r = self.dcache[n.id]
        else:
            i = len(self.trace)
            r = self.script[i] if i < len(self.script) else True
            self.trace.append((n, r))
            self.dcache[n.id] = r
            if i > 40:
                raise PathLimit()
        return r != neg

    def explore(self, thunk, limit=256):
        """all paths: list of ([(cond, choice)], value | Raised, calls)"""
        out = []
        script = []
        while True:
            self.script, self.trace, self.dcache, self.calls = script, [], {}, []
            try:
                v = thunk()
            except AbsRaise as e:
                v = Raised(e)
            out.append((list(self.trace), v, list(self.calls)))
            script = [c for _, c in self.trace]
            while script and script[-1] is False:
                script.pop()
            if not script:
                break
            script[-1] = False
            if len(out) >= limit:
                raise Incomplete("too many paths")
        self.script, self.trace, self.dcache = [], [], {}
        return out

    def merged(self, thunk):
        """value over all paths, joined with conditional nodes"""
        paths = self.explore(thunk)

        def build(ps, d):
            if len(ps) == 1 and len(ps[0][0]) == d:
                return ps[0][1]
            c = ps[0][0][d][0]
            t = [p for p in ps if p[0][d][1]]
            f = [p for p in ps if not p[0][d][1]]
            if not t:
                return build(f, d + 1)
            if not f:
                return build(t, d + 1)
            return self.join(c, build(t, d + 1), build(f, d + 1))
        return build(paths, 0), paths

    def join(self, c, u, v):
        if u is v:
            return u
        if isinstance(u, Raised) and isinstance(v, Raised):
            return u
        if isinstance(u, Raised) or isinstance(v, Raised):
            good = v if isinstance(u, Raised) else u
            return self.mapleaf(lambda n: N.sel(c, n, N.NAN, True) if good is u else N.sel(c, N.NAN, n, True), good)
        if isinstance(u, (tuple, list)) and isinstance(v, (tuple, list)) and len(u) == len(v):
            r = [self.join(c, x, y) for x, y in zip(u, v)]
            return tuple(r) if isinstance(u, tuple) else LList(r)
        if isinstance(u, Arr) or isinstance(v, Arr):
            if isinstance(u, (Arr, int, Fraction, bool)) and isinstance(v, (Arr, int, Fraction, bool)):
                x, y = self.lib.asarr(self, u), self.lib.asarr(self, v)
                if x.shape != y.shape:
                    raise Incomplete("result shape depends on run-time values")
                return Arr(self.lib.emap(lambda p, q: N.sel(c, p, q, True), x.a, y.a), x.dt)
        if isinstance(u, (int, Fraction, bool)) and isinstance(v, (int, Fraction, bool)):
            if u == v:
                return u
            return Arr(N.sel(c, obj(u).item(), obj(v).item(), True))
        if isinstance(u, (Tok, Ext)) and u == v:
            return u
        raise Incomplete("paths return different kinds of values (%r / %r)" % (u, v))

    def mapleaf(self, f, v):
        if isinstance(v, Arr):
            return Arr(self.lib.emap(f, v.a), v.dt)
        if isinstance(v, tuple):
            return tuple(self.mapleaf(f, x) for x in v)
        if isinstance(v, list):
            return LList(self.mapleaf(f, x) for x in v)
        if isinstance(v, dict):
            return LDict((k, self.mapleaf(f, x)) for k, x in v.items())
        if isnum(v):
            return Arr(f(N.const(v)))
        return v

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Partial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        if isinstance(f, Ext):
            return self.lib.ext_call(self, f.path, list(args), kw)
        if isinstance(f, Wrapped):
            return self.lib.wrapped_call(self, f, list(args), kw)
        if isinstance(f, Method):
            return self.lib.method_call(self, f.obj, f.name, list(args), kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Inst):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            raise AbsRaise("TypeError", "object not callable", self.loc())
        if isinstance(f, (Tok, ExtCall)):
            self.serial += 1
            self.lib.outward(self, f, args)
            c = ExtCall("call:%r" % f, list(args), dict(kw), self.loc(), self.serial)
            self.calls.append(c)
            return c
        if callable(f) and not isinstance(f, type):
            return f(self, *args, **kw)
        if isinstance(f, DType):
            return self.lib.cast(self, self.lib.asarr(self, args[0]), f.name)
        raise AbsRaise("TypeError", "object %r is not callable" % (f,), self.loc())

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                raise AbsRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)), self.loc())
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        posonly = {x.arg for x in a.posonlyargs}
        extra = LDict()
        for k, v in kw.items():
            if (k in names and k not in posonly) or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    raise AbsRaise("TypeError", "%s() got multiple values for argument %s" % (f.name, k), self.loc())
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise AbsRaise("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, k), self.loc())
        if a.kwarg is not None:
            out[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    raise AbsRaise("TypeError", "%s() missing required argument %s" % (f.name, n), self.loc())
                out[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in f.kwdefaults:
                    raise AbsRaise("TypeError", "%s() missing keyword-only argument %s" % (f.name, x.arg), self.loc())
                out[x.arg] = f.kwdefaults[x.arg]
        return out

    def call_func(self, f, args, kw):
        if len(self.stack) > 80:
            self.event("dynloop", "unbounded recursion through %s" % f.name)
            self.incomplete("recursion in %s" % f.name)
        vals = self.bind(f, args, kw)
        env = Env(f.env, f.module, "module" if self.depth == 0 and self.importing else "fresh")
        env.vars.update(vals)
        if f.cls is not None and args:
            env.vars["__class__cell"], env.vars["__self__cell"] = f.cls, args[0]
        sv = (self.file, self.node, self.depth)
        self.analysed.setdefault("%s:%s" % (self.rel(f.file), f.name), getattr(f.node, "lineno", 0))
        self.stack.append((f.name, f.file))
        self.file, self.depth = f.file, self.depth + 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            gen = is_generator(f.node)
            if gen:
                env.vars["__yield__"] = LIter()
            try:
                self.block(f.node.body, env)
            except Return as r:
                return env.vars["__yield__"] if gen else r.v
            return env.vars["__yield__"] if gen else None
        finally:
            self.stack.pop()
            self.file, self.node, self.depth = sv

    def instantiate(self, c, args, kw):
        init = c.lookup("__init__")
        new = Inst(c, {})
        if init is not None and c.kind != "namedtuple":
            if isinstance(init, Func):
                init.cls = init.cls or c
            self.call(Bound(init, new), args, kw)
            return new
        names = [f[0] for f in c.fields]
        if c.kind in ("namedtuple", "dataclass") or c.fields:
            d = {}
            if len(args) > len(names):
                raise AbsRaise("TypeError", "%s takes %d arguments" % (c.name, len(names)), self.loc())
            for n, v in zip(names, args):
                d[n] = v
            for k, v in kw.items():
                if k not in names or k in d:
                    raise AbsRaise("TypeError", "%s: bad argument %s" % (c.name, k), self.loc())
                d[k] = v
            for n, dv, has in c.fields:
                if n not in d:
                    if not has:
                        raise AbsRaise("TypeError", "%s: missing argument %s" % (c.name, n), self.loc())
                    if isinstance(dv, ExtCall) and dv.path.endswith("field"):
                        df = dv.kwargs.get("default_factory")
                        dv = self.call(df, [], {}) if df is not None else dv.kwargs.get("default")
                    d[n] = dv
            new.d = {n: d[n] for n in names}
            pi = c.lookup("__post_init__")
            if pi is not None:
                self.call(Bound(pi, new), [], {})
            return new
        return new


def is_generator(n):
    r = getattr(n, "generator_", None)
    if r is None:
        todo, r = list(n.body), False
        while todo and not r:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
            elif not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                todo += list(ast.iter_child_nodes(x))
        n.generator_ = r
    return r


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def lookup(self, a):
        for b in self.cls.bases:
            if isinstance(b, Class):
                r = b.lookup(a)
                if r is not None:
                    return r
        return None
