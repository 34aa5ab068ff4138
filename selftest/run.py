"""python3-vt selftest/run.py: compares the library model of the analyser with the real jax on sample expressions.
Development aid for the trusted base (the registered checks never execute the code under analysis)."""
import json, os, subprocess, sys, tempfile, random, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "tool"))
sys.path.insert(0, HERE)
import numpy as np
import nodes as N
from values import *
import absint, decide
from cases import EXPRS

only = sys.argv[1:]
rng = random.Random(3)
SH = {"x": (), "y": (), "v": (3,), "w": (3,), "A": (3, 3), "B": (2, 3)}
S = 6


def rnd(sh):
    return np.array([rng.uniform(-2.5, 2.5) for _ in range(int(np.prod(sh)) or 1)]).reshape(sh).tolist()


samples = [{k: rnd(sh) for k, sh in SH.items()} for _ in range(S)]
d = tempfile.mkdtemp()
try:
    json.dump(samples, open(d + "/in.json", "w"))
    subprocess.run(["/opt/venv/bin/python", HERE + "/real.py", d + "/in.json", d + "/out.json"], check=True, cwd=HERE, stderr=subprocess.DEVNULL)
    real = json.load(open(d + "/out.json"))
    os.makedirs(d + "/src/astrodynx")
    with open(d + "/src/astrodynx/__init__.py", "w") as f:
        f.write("import jax\nimport jax.numpy as jnp\nfrom jax import lax\nimport jax.scipy.special\n")
        for i, e in enumerate(EXPRS):
            f.write("def f%d(x, y, v, w, A, B):\n    return %s\n" % (i, e))
    I = absint.Interp(d + "/src")
    mod = I.load("astrodynx")
    bad = inc = 0
    for i, e in enumerate(EXPRS):
        if only and not any(o in e for o in only):
            continue
        args, env = [], {}
        for k, sh in SH.items():
            a = np.empty(sh, dtype=object)
            for j in np.ndindex(*sh):
                nm = k + "".join("_%d" % q for q in j)
                a[j] = N.sym(nm)
                env[nm] = np.array([np.asarray(s[k])[j] for s in samples], float)
            args.append(Arr(a if sh else a.item()))
        try:
            I.fuel = 400000
            I.stack, I.depth, I.loop_depth = [], 0, 0
            r, _ = I.merged(lambda: I.call(I.getattr(mod, "f%d" % i), list(args), {}))
            leaves = [I.lib.asarr(I, q) for q in flatten(r)]
        except Incomplete as x:
            inc += 1
            print("INCOMPLETE %-60s %s" % (e, x))
            continue
        except AbsRaise as x:
            if all(isinstance(q, str) for q in real[i]):
                continue
            bad += 1
            print("RAISES     %-60s %s" % (e, x))
            continue
        if any(isinstance(q, str) for q in real[i]):
            print("REAL-ERR   %-60s %s" % (e, real[i][0]))
            continue
        want = [[np.asarray(q, float) for q in s] for s in real[i]]
        if [l.shape for l in leaves] != [q.shape for q in want[0]]:
            bad += 1
            print("SHAPE      %-60s %s %s" % (e, [l.shape for l in leaves], [q.shape for q in want[0]]))
            continue
        nodes = [n for l in leaves for n in l.nodes()]
        try:
            got = np.array([np.broadcast_to(np.asarray(q, float), (S,)) for q in decide.feval(nodes, env, S)]).reshape(-1, S)
        except Exception as x:
            bad += 1
            print("EVAL       %-60s %r" % (e, x))
            continue
        w = np.array([np.concatenate([q.reshape(-1) for q in s]) if s else [] for s in want]).T
        if not np.allclose(got, w, rtol=1e-9, atol=1e-9, equal_nan=True):
            bad += 1
            k = np.argwhere(~np.isclose(got, w, rtol=1e-9, atol=1e-9, equal_nan=True))[0]
            print("VALUE      %-60s %s got %s want %s" % (e, k, got[tuple(k)], w[tuple(k)]))
    print("%d expressions, %d mismatches, %d not modelled" % (len(EXPRS), bad, inc))
finally:
    shutil.rmtree(d)
