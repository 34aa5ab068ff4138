import json, sys, os
os.environ["JAX_PLATFORMS"] = "cpu"
import numpy as np, jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from jax import lax
import jax.scipy.special
from cases import EXPRS
inp = json.load(open(sys.argv[1]))
out = []
for e in EXPRS:
    rs = []
    for s in inp:
        try:
            env = dict(jnp=jnp, jax=jax, lax=lax, **{k: jnp.array(v) for k, v in s.items()})
            r = eval(e, env)
            rs.append([np.asarray(q, float).tolist() for q in jax.tree.leaves(r)])
        except Exception as x:
            rs.append("ERR %s" % str(x)[:80])
    out.append(rs)
json.dump(out, open(sys.argv[2], "w"))
