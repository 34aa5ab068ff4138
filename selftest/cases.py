"""Expressions over x, y (scalars), v, w (3-vectors), A (3x3), B (2x3); every modelled library function should occur."""
EXPRS = """
jnp.argmax(v)
v[jnp.argmax(v)]
v[jnp.argmin(jnp.abs(w))]
jnp.argmin(A, axis=1)
jnp.argsort(v)
jnp.argsort(v)[::-1]
v[jnp.argsort(w)]
B[:, jnp.array([2, 0])]
jnp.take_along_axis(A, jnp.argsort(A, axis=1), axis=1)
jnp.sort(A, axis=0)
jnp.median(v)
jnp.median(B, axis=1)
jnp.searchsorted(jnp.array([0., 1., 2.]), v)
jnp.digitize(v, jnp.array([0., 1., 2.]))
jnp.interp(x, jnp.array([0., 1., 2.]), w)
jnp.choose(jnp.array([0, 1, 1]), [v, w])
jnp.isin(jnp.array([1, 2, 3]), jnp.array([2, 5]))
jnp.logaddexp(x, y)
jnp.ldexp(x, 3)
jnp.modf(x)
jnp.astype(x, float)
jnp.atleast_3d(B)
jnp.hsplit(A, 3)
jnp.vsplit(A, 3)
jnp.rollaxis(B, 1)
jnp.rot90(A)
jnp.rot90(B, 3)
jnp.resize(v, (2, 4))
jnp.tril(A)
jnp.triu(A, 1)
jnp.tri(3, 2)
jnp.diagflat(v)
jnp.diag(v)
jnp.diag(A, 1)
jnp.pad(v, 1)
jnp.pad(B, ((1, 0), (0, 2)), constant_values=7.)
jnp.pad(v, (2, 1), mode="edge")
jnp.insert(v, 1, x)
jnp.insert(B, 1, v, axis=0)
jnp.delete(v, 1)
jnp.delete(A, 0, axis=1)
jnp.indices((2, 3))
jnp.cumulative_prod(v)
jnp.cumprod(A, axis=1)
jnp.cumsum(A, axis=0)
lax.cumsum(v)
lax.cumsum(v, reverse=True)
lax.cumprod(A, axis=1)
lax.cummax(v)
lax.cummin(A, axis=1)
jnp.trapezoid(v)
jnp.trapezoid(v, dx=x)
jnp.trapezoid(A, v, axis=-1)
jnp.vander(v, 4)
jnp.vander(v, increasing=True)
jnp.polymul(v, w)
jnp.convolve(v, w)
jnp.polyadd(v, jnp.stack([x, y]))
jnp.polyder(v)
jnp.polyval(v, x)
jnp.matvec(A, v)
jnp.vecmat(v, A)
jnp.linalg.matrix_norm(A)
jnp.linalg.matrix_transpose(B)
jnp.linalg.diagonal(A)
lax.reshape(B, (3, 2))
lax.rev(B, (0, 1))
lax.broadcast(v, (2,))
lax.broadcast_in_dim(v, (3, 2), (0,))
lax.full((2, 2), 3.)
lax.iota(int, 4)
lax.slice(A, (0, 1), (2, 3))
lax.slice(v, (0,), (3,), (2,))
lax.slice_in_dim(A, 1, 3, axis=1)
lax.index_in_dim(A, 1, axis=1)
lax.index_in_dim(A, -1, 0, keepdims=False)
lax.dynamic_slice_in_dim(v, 1, 2)
lax.dynamic_slice_in_dim(v, jnp.argmax(w), 2)
lax.dynamic_slice_in_dim(A, -1, 1, axis=1)
lax.dynamic_index_in_dim(A, jnp.argmin(v), 0, False)
lax.dynamic_slice(A, (1, jnp.argmin(v)), (2, 1))
lax.dynamic_update_slice_in_dim(v, w[:2], 1, 0)
lax.dynamic_update_slice_in_dim(v, w[:1], jnp.argmin(v), 0)
lax.dynamic_update_index_in_dim(A, v, 1, 0)
lax.dynamic_update_slice(A, A[:2, :2] * x, (1, 1))
lax.sort(v)
lax.split(v, [1, 2])
lax.tile(v, (2,))
lax.pad(v, 0., [(1, 2, 0)])
lax.collapse(A, 0, 2)
lax.reduce_sum(A, (0,))
lax.reduce_max(A, (1,))
lax.dot_general(A, v, (((1,), (0,)), ((), ())))
lax.dot_general(A, A, (((0,), (1,)), ((), ())))
lax.associative_scan(jnp.add, v)
lax.associative_scan(lambda a, b: a * b, v, reverse=True)
lax.select_n(x > y, x, y)
lax.select_n(jnp.argmax(v), x, y, x + y)
jax.nn.relu(v)
jax.nn.sigmoid(x)
jax.nn.softplus(x)
jax.nn.leaky_relu(x)
jax.nn.one_hot(jnp.argmax(v), 3)
jax.tree.unflatten(jax.tree.structure((x, y)), [y, x])
jax.tree.reduce(lambda a, b: a + b, (x, {"a": y}))
jax.scipy.special.factorial(jnp.array([3., 4.]))
v.at[jnp.argmax(v)].set(x)
v.at[jnp.argmax(v)].add(x)
A.at[jnp.argmax(v), 1].set(x)
A.at[jnp.argmax(v)].multiply(2.)
A[jnp.argmax(v), jnp.array([0, 1])]
A[jnp.argsort(v)]
v[jnp.array([0, -1, 7])]
v[5]
lax.switch(jnp.sign(x).astype(int) + 1, [lambda: x, lambda: y, lambda: x * y])
lax.switch(5, [lambda: x, lambda: y])
jnp.where(v > w, v, w)
jnp.select([v > 1, v > 0], [w, -w], x)
jnp.piecewise(v, [v < 0, v > 1], [lambda q: -q, lambda q: q * 2, 0.5])
jnp.clip(v, 0, 1)
jnp.sign(v)
jnp.copysign(x, y)
jnp.heaviside(x, 0.5)
jnp.sinc(x)
jnp.fmod(x, y)
jnp.mod(x, y)
jnp.remainder(v, 2.)
x // y
jnp.floor_divide(v, w)
jnp.divmod(x, y)
jnp.hypot(x, y)
jnp.cbrt(x)
jnp.float_power(jnp.abs(x), y)
jnp.round(x, 2)
jnp.trunc(v)
jnp.fix(v)
jnp.deg2rad(x)
jnp.exp2(x)
jnp.log2(jnp.abs(x))
jnp.expm1(x)
jnp.log1p(jnp.abs(x))
jnp.cross(v, w)
jnp.cross(v[:2], w[:2])
jnp.cross(A, v)
jnp.cross(A, A[::-1], axis=0)
jnp.outer(v, w)
jnp.inner(A, v)
jnp.inner(A, A)
jnp.vdot(A, A)
jnp.vecdot(A, A)
jnp.dot(A, A)
jnp.dot(v, w)
jnp.tensordot(A, A, 1)
jnp.tensordot(A, A, axes=([0], [1]))
jnp.kron(v, w)
jnp.einsum("ij,j->i", A, v)
jnp.einsum("...j,...j", A, A)
jnp.einsum("ii", A)
jnp.einsum("i,j->ij", v, w)
jnp.linalg.norm(A)
jnp.linalg.norm(A, axis=-1, keepdims=True)
jnp.linalg.norm(v, 1)
jnp.linalg.norm(v, jnp.inf)
jnp.linalg.vector_norm(A, axis=0)
jnp.linalg.det(A)
jnp.linalg.inv(A)
jnp.linalg.solve(A, v)
jnp.linalg.matrix_power(A, 3)
jnp.linalg.multi_dot([A, A, v])
jnp.linalg.trace(A)
jnp.trace(A)
jnp.ptp(v)
jnp.var(v)
jnp.std(A, axis=1)
jnp.mean(A, axis=0)
jnp.prod(A, axis=1, keepdims=True)
jnp.diff(v)
jnp.diff(A, axis=0)
jnp.roll(v, 1)
jnp.roll(A, 1, axis=1)
jnp.flip(v)
jnp.flipud(A)
jnp.tile(v, (2, 1))
jnp.repeat(v, 2)
jnp.repeat(B, 2, axis=0)
jnp.stack([v, w], axis=-1)
jnp.concatenate([v, w])
jnp.append(v, x)
jnp.hstack([v, w])
jnp.vstack([v, w])
jnp.column_stack([v, w])
jnp.dstack([v, w])
jnp.block([[A, A], [A, A]])
jnp.split(v, 3)
jnp.meshgrid(v, w)
jnp.linspace(x, y, 4)
jnp.arange(3) * x
jnp.full_like(v, x)
jnp.eye(3) * x
jnp.identity(2)
jnp.moveaxis(B, 0, 1)
jnp.swapaxes(B, 0, 1)
B.T
B.mT
jnp.expand_dims(v, 0)
jnp.broadcast_to(v, (2, 3))
jnp.squeeze(v[None])
jnp.count_nonzero(v > 0)
jnp.all(v > 0)
jnp.any(A > 0, axis=0)
jnp.isclose(x, y)
jnp.allclose(v, v)
jnp.array_equal(v, w)
jnp.nan_to_num(x)
jnp.logical_xor(x > 0, y > 0)
jnp.arctan2(x, y)
jnp.apply_along_axis(lambda q: q.sum(), 0, A)
jnp.vectorize(lambda a, b: a + b)(v, x)
jnp.vectorize(lambda a: a @ a, signature="(n)->()")(A)
jax.vmap(lambda a: a @ v)(A)
jax.vmap(jnp.dot, in_axes=(0, None))(A, v)
jax.vmap(lambda a, b: a * b, out_axes=1)(A, A)
jax.grad(lambda q: jnp.sin(q) * q)(x)
jax.jacfwd(lambda q: q**2 * x)(v)
jax.jvp(lambda q: jnp.sin(q), (x,), (y,))
lax.fori_loop(0, 3, lambda i, c: c * x + i, y)
lax.scan(lambda c, q: (c + q, c * q), x, v)
lax.scan(lambda c, q: (c + q, c * q), x, v, reverse=True)
lax.cond(x > y, lambda a: a, lambda a: -a, x)
lax.map(lambda q: q * x, v)
lax.while_loop(lambda s: s[0] < 3, lambda s: (s[0] + 1, s[1] * x), (0, y))[1]
lax.rsqrt(jnp.abs(x))
lax.integer_pow(x, 3)
lax.clamp(0., x, 1.)
lax.concatenate([v, w], 0)
v[..., None] * w
A[:, 0:1]
A[1:, ::2]
A[..., -1]
v[::-1]
x**2 + y**-1
(x > 0) * y
-v @ w
abs(v)
v.sum(keepdims=True)
A.reshape(-1)[2:5]
A.ravel()
A.at[0, 1].set(x)
A.at[:, 0].add(v)
v.at[1:].multiply(2)
sum([x, y, x])
max(1, 2) * x
[a * b for a, b in zip(v, w)]
jnp.array([[x, y], [y, x]])
jnp.unstack(A)
jnp.ravel(A)
jnp.fabs(v)
jnp.square(v)
jnp.reciprocal(x)
jnp.maximum(v, x)
jnp.fmax(v, w)
jnp.nansum(v)
jnp.cov(v)
jnp.average(v)
jnp.average(v, weights=jnp.abs(w))
jnp.nanmax(v)
jnp.quantile(v, 0.5)
jnp.unwrap(v)
jnp.ediff1d(v)
jnp.array_split(v, 2)
jnp.broadcast_arrays(v, A)
jnp.nanmean(v)
jnp.put_along_axis(A, jnp.array([[0], [1], [2]]), 1.5, axis=1, inplace=False)
jnp.einsum_path("ij,j->i", A, v)[0]
""".strip().split("\n")
