import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(globals().get("__file__", "/verif/tools/defs/b4.py"))), "b2.py")).read().split("BUGS = [")[0])
BUGS = [
 # ---------------------------------------------------------------- P15
 dict(id="mutual-coherence-transpose", property="P15", edits=[("dict/props.py", "    G = mat_hermitian(A) @ B\n", "    G = A.T @ B\n")],
      needs="two complex dictionaries", breaks="inner products without conjugation",
      demo=PRE + '''
import cr.sparse.dict as d
A, B = unit(cvec(5, 4)), unit(cvec(5, 3))
close(d.mutual_coherence(A, B), jnp.max(jnp.abs(jnp.conj(A.T) @ B)))
'''),
 # ---------------------------------------------------------------- P16
 dict(id="focuss-ignores-p", property="P16", edits=[("cvx/focuss.py", "        xp2 = xp * xp\n", "        xp2 = state.x * state.x\n")],
      needs="an exponent other than one", breaks="the weights ignore the exponent p after the first step",
      demo=PRE + '''
from cr.sparse.cvx import focuss
A = rvec(4, 8); y = rvec(4)
sol = focuss.matrix_solve_noiseless(A, y, p=0.5, max_iters=3)
x = jnp.ones(8)
for i in range(3):
    W = jnp.abs(x)
    G = (A * W) @ A.T
    x = W * (A.T @ jnp.linalg.solve(G, y))
close(sol.x, x, 1e-6)
'''),
 dict(id="fista-momentum", property="P16", edits=[("sls/fista.py", "t = (1. + jnp.sqrt(1. + 4. * state.t ** 2)) / 2.", "t = (1. + jnp.sqrt(1. + 2. * state.t ** 2)) / 2.")],
      needs="comparing the iterates with the accelerated method; the method still converges, slower", breaks="the momentum sequence is not Nesterov's",
      demo=PRE + '''
from cr.sparse.sls import fista
A = rvec(6, 9); y = rvec(6)
s = 0.9 / float(jnp.linalg.norm(A, 2)) ** 2
soft = lambda i, z: jnp.sign(z) * jnp.maximum(jnp.abs(z) - s * .1, 0)
sol = fista(lop.matrix(A), y, jnp.zeros(9), step_size=s, threshold_func=soft, res_norm_rtol=1e-12, max_iters=7)
x = z = jnp.zeros(9); t = 1.
xs = []
for i in range(12):
    xn = soft(i, z + s * A.T @ (y - A @ z))
    tn = (1 + (1 + 4 * t * t) ** .5) / 2
    z = xn + (t - 1) / tn * (xn - x); x = xn; t = tn
    xs.append(x)
assert min(float(jnp.max(jnp.abs(sol.x - v))) for v in xs) < 1e-6
'''),
 dict(id="cosamp-merges-k", property="P16", edits=[("pursuit/cosamp.py", "        I_2k = largest_indices(h, K2)\n", "        I_2k = largest_indices(h, K)\n")], nth={"        I_2k = largest_indices(h, K2)\n": 0},
      needs="a signal whose next 2K candidates matter; sizes still fit", breaks="only K instead of 2K candidate columns are merged per iteration",
      demo=PRE + '''
from cr.sparse.pursuit import cosamp
bad = 0
for s in range(40):
    r = np.random.RandomState(s)
    A = jnp.asarray(r.randn(12, 24)); A = unit(A)
    y = jnp.asarray(r.randn(12)); K = 3
    sol = cosamp.matrix_solve(A, y, K, max_iters=2)
    h = A.T @ y
    def step(I, r_):
        h = jnp.abs(A.T @ r_).at[I].set(0)
        J = np.unique(np.hstack((np.asarray(I), np.argsort(np.asarray(h))[::-1][:2 * K])))
        b = np.linalg.lstsq(np.asarray(A[:, J]), np.asarray(y), rcond=None)[0]
        L = J[np.argsort(np.abs(b))[::-1][:K]]
        x = b[np.argsort(np.abs(b))[::-1][:K]]
        return L, y - A[:, L] @ x, x
    I, r1, x = step(np.zeros(0, int), y)
    J = np.argsort(np.abs(np.asarray(h)))[::-1][:3 * K]
    b = np.linalg.lstsq(np.asarray(A[:, J]), np.asarray(y), rcond=None)[0]
    o = np.argsort(np.abs(b))[::-1][:K]
    I = J[o]; r1 = y - A[:, I] @ b[o]
    I, r2, x = step(I, r1)
    bad += set(np.asarray(I).tolist()) != set(np.asarray(sol.I).tolist())
assert bad == 0, bad
'''),
 # ---------------------------------------------------------------- P17
 dict(id="blocks-interleaved", property="P17", edits=[("data/synthetic/random.py", "    values = jnp.reshape(values, (S, nv)).T\n", "    values = jnp.reshape(values, (nv, S))\n")],
      needs="several signals and normalised or correlated blocks", breaks="the values of a block are scattered over signals, so blocks are neither normalised nor correlated",
      demo=PRE + '''
import cr.sparse.data as data
x, b, i = data.sparse_normal_blocks(random.PRNGKey(3), 24, 2, 4, 3, normalize_blocks=True)
n = jnp.linalg.norm(x.reshape((6, 4, 3)), axis=1)
close(n[b], jnp.ones((2, 3)), 1e-6)
'''),
 dict(id="subspaces3-shared-complement", property="P17", edits=[("data/synthetic/subspaces.py", "    C = jnp.column_stack((c1, Y[:, 2*D-2:3*D-3]))\n", "    C = jnp.column_stack((c1, Y[:, D-1:2*D-2]))\n")],
      needs="subspaces of dimension two or more", breaks="the third subspace shares directions with the second, so their angle is zero",
      demo=PRE + '''
import cr.sparse.data as data
A, B, C = data.three_subspaces_at_angle(random.PRNGKey(0), 20, 4, 40)
for U, V in ((A, B), (A, C), (B, C)):
    close(jnp.max(jnp.linalg.svd(U.T @ V, compute_uv=False)), np.cos(np.pi * 40 / 180), 1e-5)
'''),
 dict(id="biuniform-range", property="P17", edits=[("data/synthetic/random.py", "    values = a + (b -a) * values\n", "    values = a + b * values\n")],
      needs="looking at the magnitudes", breaks="magnitudes reach a + b instead of b",
      demo=PRE + '''
import cr.sparse.data as data
x, w = data.sparse_biuniform_representations(random.PRNGKey(0), 1., 2., 200, 100)
a = jnp.abs(x[w]); assert a.min() >= 1 and a.max() <= 2
'''),
 dict(id="points-on-subspaces-offset", property="P17", edits=[("data/synthetic/subspaces.py", "        coeffs = cnb.normalize_l2_cw(coeffs)\n", "        coeffs = cnb.normalize_l2_rw(coeffs)\n")],
      needs="looking at the norms of the points", breaks="coefficients are normalised across points instead of per point, so points are not on the unit sphere",
      demo=PRE + '''
import cr.sparse.data as data
B = data.random_subspaces(random.PRNGKey(1), 8, 3, 2)
X = data.uniform_points_on_subspaces(random.PRNGKey(2), B, 5)
close(jnp.linalg.norm(X, axis=0), jnp.ones(10), 1e-5)
'''),
]
