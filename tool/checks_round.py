"""C29 roots and inverse functions under rounding."""
import fsafe
import nodes as N
import spec
from framework import Missing

RULE = "domain-restricted operations: bounds of the computed argument, search for points where the argument is rounding noise"


def names(x):
    return "root" if x.op == "pow" else x.attr


def rounding(run, F, most=24):
    """obligations for every root, inverse function and logarithm on the data paths of F"""
    loc = F.path
    try:
        loc = run.where(run.value(F.path))
    except Missing:
        pass
    outs = [y for o in run.outs(F) for y in o.reshape(-1)]
    dom = spec.domain_of(F)
    bounds = fsafe.Bounds(dom)
    parents = fsafe.parents_of(outs)
    found = {}
    for x, fs, cs in fsafe.sites(outs):
        found.setdefault(x.id, []).append((x, fs, cs))
    calm, rest = 0, []
    for k in sorted(found):
        x = found[k][0][0]
        es = [fsafe.Edge(x, fs, cs, dom, run.seed, bounds, parents) for x, fs, cs in found[k]]
        safe = all(fsafe.inside(x, fs, bounds) for x, fs, cs in found[k])
        if safe and not any(e.gaps for e in es):
            calm += 1
        else:
            rest.append((x, safe, es))

    def whole():
        return "proved", "bounds of the computed argument; terms of one sign, or an input that moves the difference as much as rounding does", None
    run.ob("%s: %d operations with a restricted domain" % (F.name, calm), loc, RULE, whole)
    for n, (x, safe, es) in enumerate(rest[:most]):
        def thunk(x=x, safe=safe, es=es):
            tried = 0
            for e in [e for e in es if e.ok][:4]:
                w = e.search(20.0 if run.thorough else 2.5)
                tried += e.tried
                if w:
                    return "refuted", "evaluation of the argument, its terms and its sensitivities at an admissible point", w
            return "open", "", dict(reason="no admissible point found at which the argument is rounding noise", points=tried, inside=safe, construct=N.show(x, 4))
        run.ob("%s: %s, number %d" % (F.name, names(x), n + 1), loc, RULE, thunk)


def c29(run):
    run.each(spec.FUNCS, lambda F, loc: rounding(run, F))
    run.extra["explanation"] = ("every root, inverse function and logarithm outside solver loops on the value graphs of the public functions: bounds of the computed argument that survive rounding, "
                                "cancelling terms of the argument, sensitivity of the argument to rounding of the inputs")
