import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(globals().get("__file__", "/verif/tools/defs/b3.py"))), "b2.py")).read().split("BUGS = [")[0])
BUGS = [
 # ---------------------------------------------------------------- P07
 dict(id="subspaces3-static-args", property="P07", edits=[("data/synthetic/subspaces.py", "three_subspaces_at_angle_jit = jit(three_subspaces_at_angle, static_argnums=(1,2,3))", "three_subspaces_at_angle_jit = jit(three_subspaces_at_angle, static_argnums=(1,3))")],
      needs="a call of the compiled variant", breaks="the subspace dimension is traced although it bounds slices",
      demo=PRE + '''
from cr.sparse._src.data.synthetic import subspaces as s
A, B, C = s.three_subspaces_at_angle_jit(random.PRNGKey(0), 12, 3, 30.)
assert A.shape == (12, 3)
'''),
 dict(id="half-percentile-wrong-target", property="P07", edits=[("geo/thresholding.py", "half_threshold_percentile_jit = jit(half_threshold_percentile, static_argnums=(1,))", "half_threshold_percentile_jit = jit(soft_threshold_percentile, static_argnums=(1,))")],
      needs="a call of the compiled variant", breaks="the compiled half thresholding is soft thresholding",
      demo=PRE + '''
from cr.sparse._src.geo import thresholding as t
x = rvec(20)
close(t.half_threshold_percentile_jit(x, 40), t.half_threshold_percentile(x, 40))
'''),
 dict(id="spgl1-bpic-tracker-traced", property="P07", edits=[("cvx/spgl1.py", "solve_bpic_from_jit = jit(solve_bpic_from, static_argnames=(\"A\", \"options\", \"tracker\"))", "solve_bpic_from_jit = jit(solve_bpic_from, static_argnames=(\"A\", \"options\"))")],
      needs="passing a tracker to the compiled warm-started solver", breaks="a callable is passed as a traced argument",
      demo=PRE + '''
from cr.sparse.cvx import spgl1
A = lop.jit(lop.matrix(rvec(10, 30))); b = rvec(10)
spgl1.solve_bpic_from_jit(A, b, .1, jnp.zeros(30), tracker=lambda s, more=False: None)
'''),
 dict(id="kmeans-early-return", property="P07", edits=[("cluster/kmeans.py", "        indices = random.permutation(key, jnp.arange(n))[:k]\n", "        indices = random.permutation(key, jnp.arange(n))[:k] if max_iters > 0 else jnp.arange(k)\n")],
      needs="the compiled single-seed k-means with the limit passed", breaks="the iteration limit steers a Python branch although it is traced",
      demo=PRE + '''
from cr.sparse._src.cluster import kmeans as km
pts = rvec(30, 3)
a = km.kmeans_with_seed(random.PRNGKey(1), pts, 3, 1e-5, 7)
b = km.kmeans_with_seed_jit(random.PRNGKey(1), pts, 3, 1e-5, 7)
close(a.centroids, b.centroids)
'''),
 dict(id="entropy-python-branch", property="P07", edits=[("opt/smooth/entropy.py", "        g, v = lax.cond(jnp.any(x < 0),\n            lambda x: out_of_domain(x),\n            lambda x: in_domain(x),\n            x)\n", "        g, v = out_of_domain(x) if jnp.any(x < 0) else in_domain(x)\n")],
      needs="using the combined value/gradient entry", breaks="a traced truth value decides a Python branch",
      demo=PRE + '''
f = opt.smooth_entropy_vg()
g, v = f.grad_val(jnp.abs(rvec(5)))
assert jnp.isfinite(v)
'''),
 # ---------------------------------------------------------------- P08
 dict(id="biuniform-key-reuse", property="P08", edits=[("data/synthetic/random.py", "sgn = jnp.sign(random.normal(keys[2], shape))", "sgn = jnp.sign(random.normal(keys[1], shape))")],
      needs="any call", breaks="signs and magnitudes of the nonzero entries are drawn from one key",
      demo=PRE + '''
import cr.sparse.data as crdata
x, om = crdata.sparse_biuniform_representations(random.PRNGKey(3), 1., 2., 4000, 2000)
v = x[om]
m, s = jnp.abs(v), jnp.sign(v)
assert abs(float(jnp.corrcoef(m, s)[0, 1])) < .1
'''),
 dict(id="blocks-key-reuse", property="P08", edits=[("data/synthetic/random.py", "values = random.normal(key[1], (nb,B))", "values = random.normal(key[0], (nb,B))")],
      needs="any call", breaks="block positions and block values are drawn from the same key",
      demo=PRE + '''
from cr.sparse._src.data.synthetic import random as r
k = random.PRNGKey(5)
x, b, i = r.sparse_normal_blocks(k, 40, 3, 4)
for q in random.split(k):
    used = jnp.sort(random.choice(q, 10, shape=(3,), replace=False))
    if bool(jnp.all(used == b)):
        assert not np.allclose(x[i], random.normal(q, (3, 4)).reshape(-1))
'''),
 dict(id="subspaces-shared-seed", property="P08", edits=[("data/synthetic/subspaces.py", "coeffs = random.normal(keys[i], [di, n])", "coeffs = random.normal(keys[0], [di, n])")],
      needs="more than one subspace", breaks="every subspace gets the same coordinates",
      demo=PRE + '''
from cr.sparse._src.data.synthetic import subspaces as s
B = [jnp.linalg.qr(rvec(9, 2))[0] for _ in range(2)]
X = s.uniform_points_on_subspaces(random.PRNGKey(0), B, 5)
assert not np.allclose(B[0].T @ X[:, :5], B[1].T @ X[:, 5:])
'''),
 dict(id="prob008-real-imag", property="P08", edits=[("problems/prob008.py", "ic = jnp.sign(random.normal(ikey, shape=(k,)))", "ic = jnp.sign(random.normal(rkey, shape=(k,)))")],
      needs="any call", breaks="real and imaginary signs are drawn from one key",
      demo=PRE + '''
from cr.sparse._src.problems import prob008
p = prob008.generate(random.PRNGKey(0))
x = np.asarray(p.x); x = x[x != 0]
assert not np.allclose(x.real, x.imag)
'''),
 dict(id="index-sets-fixed-key", property="P08", edits=[("data/synthetic/random.py", "    set_gen = lambda key : random.permutation(key, omega)[:K]", "    set_gen = lambda key : random.permutation(random.PRNGKey(0), omega)[:K]")],
      needs="more than one set or two different keys", breaks="the index sets do not depend on the key",
      demo=PRE + '''
from cr.sparse._src.data.synthetic import random as r
a = r.index_sets(random.PRNGKey(1), 50, 5, 3)
assert not np.array_equal(a, r.index_sets(random.PRNGKey(2), 50, 5, 3))
'''),

 # ---------------------------------------------------------------- P09
 dict(id="convnd-axes-inplace", property="P09", edits=[("lop/conv.py", "        axes = np.array(axes)\n", "        axes = np.asarray(axes)\n        axes[axes < 0] += data_ndim\n")],
      needs="negative axes passed as a numpy array", breaks="the caller's axes array is rewritten",
      demo=PRE + """
ax = np.array([-2, -1])
lop.convolveND((3, 5, 6), rvec(2, 2), axes=ax)
assert list(ax) == [-2, -1], ax
"""),
 dict(id="blockdiag-pops-list", property="P09", edits=[("lop/block_diag.py", "    num_operators = len(operators)\n", "    num_operators = len(operators)\n    while operators[-1].shape == (0, 0): operators.pop()\n    num_operators = len(operators)\n")],
      needs="trailing empty operators in the list", breaks="the caller's list is shortened",
      demo=PRE + """
ops = [lop.identity(3), lop.identity(2), lop.identity(0)]
lop.block_diag(ops)
assert len(ops) == 3
"""),
 dict(id="power-print", property="P09", edits=[("sls/power.py", "    v = v / arr_l2norm(v)\n", "    v = v / arr_l2norm(v)\n    import jax\n    jax.debug.print('power iterations: {}', state.iterations)\n")],
      needs="capturing the output", breaks="a numeric routine writes to the terminal",
      demo=PRE + """
import io, contextlib
from cr.sparse._src.sls import power
o = io.StringIO()
with contextlib.redirect_stdout(o):
    power.power_iterations(lop.matrix(rvec(4, 4)), jnp.ones(4)); jax.effects_barrier()
assert o.getvalue() == ''
"""),
 # ---------------------------------------------------------------- P10
 dict(id="conic-polar", property="P10", edits=[("opt/projectors/basic.py", "outside = norm_x > abs_t", "outside = norm_x > t")],
      needs="a point in the polar cone", breaks="points below the polar cone are mapped off the cone",
      demo=PRE + """
p, i = opt.proj_conic(), opt.indicator_conic()
for x in ([.1, .1, -3.], [1., 1., 5.], [3., 4., 1.]):
    y = p(jnp.array(x)); assert float(jnp.linalg.norm(y[:-1])) <= float(y[-1]) + 1e-9
"""),
 dict(id="l1ball-all-active", property="P10", edits=[("opt/projectors/lpballs.py", "K = jnp.where(K == 0, len(flags), K)", "K = jnp.where(K == 0, len(flags) - 1, K)")],
      needs="a point whose projection keeps every entry nonzero", breaks="the projection misses the ball",
      demo=PRE + """
p, i = opt.proj_l1_ball(1.), opt.indicator_l1_ball(1. + 1e-9)
for x in ([1., 1., 1.1], [5., 0.1, 0.], [.1, .2, .1]):
    assert float(i(p(jnp.array(x)))) == 0
"""),
 dict(id="box-lower-all", property="P10", edits=[("opt/indicators/basic.py", "        is_invalid = jnp.any(x < l)\n        return jnp.where(is_invalid, jnp.inf, 0)\n", "        is_invalid = jnp.any(x < jnp.min(l))\n        return jnp.where(is_invalid, jnp.inf, 0)\n")],
      needs="lower bounds that differ between entries", breaks="the indicator only checks the smallest bound",
      demo=PRE + """
l = jnp.array([0., 2.])
i, p = opt.indicator_box(l=l), opt.proj_box(l=l)
x = jnp.array([1., 1.])
assert float(i(x)) == float('inf') and float(i(p(x))) == 0
"""),
 # ---------------------------------------------------------------- P11
 dict(id="huber-unit-tail", property="P11", edits=[("opt/smooth/huber.py", "x_large = x_mag - tau/2", "x_large = x_mag - 0.5")],
      needs="a threshold other than one", breaks="the value is not the integral of the gradient",
      demo=PRE + """
f = opt.smooth_huber(3.)
x = jnp.array([5., -7., 1.]); d = rvec(3)
g = jax.grad(f.func)
close(f.func(jnp.array([3.])), 1.5); close(f.func(jnp.array([5.])), 3.5)
"""),
 dict(id="logdet-grad-scale", property="P11", edits=[("opt/smooth/logdet.py", "g = -q*inv(X)", "g = -inv(X)")],
      needs="a scale other than one", breaks="the gradient ignores the scale",
      demo=PRE + """
f = opt.smooth_logdet(2.5); B = rvec(4, 4); X = B @ B.T + jnp.eye(4)
h = 1e-6; D = jnp.eye(4)
close((f.func(X + h * D) - f.func(X - h * D)) / (2 * h), jnp.vdot(f.grad(X), D), 1e-5)
"""),
 dict(id="quad-error-combined", property="P11", edits=[("opt/smooth/quad.py", "v = 0.5 * jnp.dot(r, r)", "v = jnp.dot(r, r)")],
      needs="using the combined entry", breaks="the combined entry returns twice the value",
      demo=PRE + """
A, b, x = rvec(5, 3), rvec(5), rvec(3)
f = opt.smooth_quad_error(A, b)
close(f.grad_val(x)[1], f.func(x))
"""),
 dict(id="moreau-grad-scale", property="P11", edits=[("opt/prox_to_smooth.py", "return (1/mu) * (x - f.prox_op(x, mu))", "return (1/mu) * (x - f.prox_op(x, 1.0))")],
      needs="a smoothing parameter other than one", breaks="the gradient of the Moreau envelope uses the unit step",
      demo=PRE + """
f = opt.moreau_envelope(opt.prox_l1(), .3)
x = jnp.array([.2, 2., -3.])
close(f.grad(x), f.grad_val(x)[0])
"""),
 # ---------------------------------------------------------------- P12
 dict(id="l1pos-step", property="P12", edits=[("opt/proximal_ops/lpnorms.py", "return jnp.maximum(0, x - tq)", "return jnp.maximum(0, x - q)")],
      needs="a step other than one", breaks="the proximal step ignores the step size",
      demo=PRE + """
f = opt.prox_l1_pos(2.)
close(f.prox_op(jnp.array([5., 1., -3.]), .5), jnp.array([4., 0., 0.]))
"""),
 dict(id="ind-proj-value", property="P12", edits=[("opt/proximal_ops/prox.py", "        return z, 0.\n", "        return z, indicator(x)\n")],
      needs="a start outside the set", breaks="the combined entry returns the value at the point before the step",
      demo=PRE + """
f = opt.prox_l1_ball(1.)
z, v = f.prox_vec_val(jnp.array([3., 4.]), 1.)
assert float(v) == 0
"""),
 dict(id="owl1-step", property="P12", edits=[("opt/proximal_ops/prox_sorted_l1.py", "z = prox_ordered_l1_a(x, t*lambda_)", "z = prox_ordered_l1_a(x, lambda_)")],
      needs="a step other than one", breaks="the ordered weighted prox ignores the step size",
      demo=PRE + """
f = opt.prox_owl1(jnp.array([1., 1., 1.]))
close(f.prox_op(jnp.array([5., 1., -3.]), .5), jnp.array([4.5, .5, -2.5]))
"""),
 dict(id="l2-shrink-threshold", property="P12", edits=[("opt/proximal_ops/lpnorms.py", "s = 1 - 1 / jnp.maximum( v / ( t * q ), 1. )", "s = 1 - 1 / jnp.maximum( v / q, 1. )")],
      needs="a step other than one", breaks="the Euclidean norm prox ignores the step size",
      demo=PRE + """
f = opt.prox_l2(1.)
close(f.prox_op(jnp.array([3., 4.]), 2.), jnp.array([3., 4.]) * .6)
"""),
 # ---------------------------------------------------------------- P13
 dict(id="performance-details", property="P13", edits=[("tools/performance.py", "print(f'Overlap: {self.overlap}')", "print(f'Overlap: {self.T0_R0}')")],
      needs="printing the details", breaks="a member that does not exist is read",
      demo=PRE + """
from cr.sparse._src.tools.performance import RecoveryPerformance
A = rvec(6, 10); x = jnp.zeros(10).at[2].set(1.)
RecoveryPerformance(A, A @ x, x, x_hat=x + .1).print(True)
"""),
 dict(id="solution-str-field", property="P13", edits=[("cvx/focuss.py", "len(self.r)", "len(self.residual)")],
      needs="printing the result", breaks="a field that does not exist is read",
      demo=PRE + """
from cr.sparse._src.cvx import focuss
str(focuss.matrix_solve_noiseless(rvec(4, 6), rvec(4)))
"""),
 dict(id="opt-export-missing", property="P13", edits=[("lop/windowed_op.py", "import jax.numpy as jnp", "import jax.numpy as jnp\nfrom .util import apply_along_axes")], needs="", breaks="", demo=""),

 # ---------------------------------------------------------------- P14
 dict(id="prob003-order", property="P14", edits=[("problems/prob003.py", "x = jnp.concatenate([spikes, coeffs])", "x = jnp.concatenate([coeffs, spikes])")],
      needs="looking at the stored representation", breaks="the stored representation does not produce the measurements",
      demo=PRE + """
from cr.sparse._src.problems import prob003
p = prob003.generate(random.PRNGKey(0), c=2, k=5, n=64)
close(p.A.times(p.x), p.b, 1e-4)
"""),
 dict(id="prob010-weights", property="P14", edits=[("problems/prob010.py", "inv_heaviside = crlop.inv_heaviside(n, normalized=True)", "inv_heaviside = crlop.inv_heaviside(n, normalized=False)")],
      needs="looking at the stored representation", breaks="the stored representation belongs to the unnormalised basis",
      demo=PRE + """
from cr.sparse._src.problems import prob010
p = prob010.generate(random.PRNGKey(0), n=64)
close(p.A.times(p.x), p.b, 1e-3)
"""),
 dict(id="prob401-mixing", property="P14", edits=[("problems/prob401.py", "mixture = signal @ mixing.T", "mixture = signal @ mixing")],
      needs="a mixing matrix that is not symmetric", breaks="the measurements are not the mixture of the sources", demo=""),
]
BUGS = [b for b in BUGS if b["demo"]]
