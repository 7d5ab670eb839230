PRE = '''
import numpy as np, jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from jax import random
import cr.sparse as crs
import cr.sparse.lop as lop
import cr.sparse.opt as opt
rng = np.random.RandomState(5)
def cvec(*s): return jnp.asarray(rng.randn(*s) + 1j * rng.randn(*s))
def rvec(*s): return jnp.asarray(rng.randn(*s))
def unit(A): return A / jnp.linalg.norm(A, axis=0)
def close(a, b, tol=1e-8): assert np.allclose(np.asarray(a), np.asarray(b), atol=tol), (a, b)
'''
RES = '''
def residual(Phi, y, sol):
    x = jnp.zeros(Phi.shape[1], dtype=sol.x_I.dtype).at[sol.I].set(sol.x_I)
    r = y - Phi @ x
    close(sol.r, r)
    close(sol.r_norm_sqr, jnp.vdot(r, r).real)
'''
BUGS = [
 # ---------------------------------------------------------------- P04
 dict(id="sp-norm-rescale", property="P04", edits=[("pursuit/sp.py", "r_norm_sqr = state.r_norm_sqr * y_norm_sqr", "r_norm_sqr = state.r_norm_sqr * y_norm")],
      needs="measurements that are not unit norm and a stop with a residual left", breaks="subspace pursuit undoes the internal scaling of the squared residual norm only half",
      demo=PRE + RES + '''
from cr.sparse.pursuit import sp
A = unit(rvec(20, 40)); y = 7 * rvec(20)
residual(A, y, sp.solve(lop.jit(lop.matrix(A)), y, 3, max_iters=2))
'''),
 dict(id="iht-best-iterate", property="P04", edits=[("pursuit/iht.py", "    return RecoverySolution(x_I=state.x_I, I=state.I, r=state.r, r_norm_sqr=state.r_norm_sqr,\n        iterations=state.iterations, length=Phi.shape[1])",
      "    # report the better one of the last two iterates\n    worse = state.r_norm_sqr > state.r_norm_sqr_prev\n    x_I = jnp.where(worse, state.x_I_prev, state.x_I)\n    I = jnp.where(worse, state.I_prev, state.I)\n    r_norm_sqr = jnp.minimum(state.r_norm_sqr, state.r_norm_sqr_prev)\n    return RecoverySolution(x_I=x_I, I=I, r=state.r, r_norm_sqr=r_norm_sqr,\n        iterations=state.iterations, length=Phi.shape[1])")],
      nth={"    return RecoverySolution(x_I=state.x_I, I=state.I, r=state.r, r_norm_sqr=state.r_norm_sqr,\n        iterations=state.iterations, length=Phi.shape[1])": 0},
      needs="a last iteration that increased the residual", breaks="the iterate is rolled back but the residual is not",
      demo=PRE + RES + '''
from cr.sparse.pursuit import iht
for s in range(6):
    A = unit(rvec(10, 40)); y = rvec(10)
    residual(A, y, iht.matrix_solve(A, y, 4, step_size=1.5, max_iters=4 + s))
'''),
 dict(id="ista-basis-residual", property="P04", edits=[("sls/ista.py", "r = b - operator.times(x)", "r = b - operator.times(alpha)")],
      needs="a sparsifying basis other than the identity", breaks="the residual is computed from the coefficients instead of the solution",
      demo=PRE + '''
from cr.sparse import sls
A = lop.matrix(rvec(6, 9) / 8); b = rvec(6)
for basis in (lop.identity(9), lop.cosine_basis(9)):
    s = sls.ista(A, b, jnp.zeros(9), 0.5, basis=basis, max_iters=5)
    close(s.r, b - A.times(s.x)); close(s.r_norm_sqr, jnp.sum(s.r ** 2))
'''),
 dict(id="cg-long-steps", property="P04", edits=[("opt/cg.py", "x = state.x + alpha * p", "x = state.x + jnp.minimum(alpha, 1e3) * p")],
      needs="a matrix with a very small eigenvalue, so that a step exceeds the cap", breaks="the solution takes a capped step while the residual is updated with the full one",
      demo=PRE + '''
from cr.sparse.opt import cg
for s in (1.0, 1e-5):
    A = s * jnp.diag(jnp.array([1.0, 2.0, 3.0])); b = rvec(3)
    st = cg.solve(A, b, max_iters=2)
    close(st.r, b - A @ st.x, 1e-6)
'''),
 # ---------------------------------------------------------------- P05
 dict(id="sp-min-beats-max", property="P05", edits=[("pursuit/sp.py", "b = state.iterations < max_iters", "b = state.iterations < max(max_iters, min_iters)")],
      nth={"b = state.iterations < max_iters": 1},
      needs="an iteration limit below the solver's own minimum of 3K", breaks="subspace pursuit overruns a small iteration limit",
      demo=PRE + '''
from cr.sparse.pursuit import sp
A = unit(rvec(20, 60)); y = rvec(20)
for k in (1, 2, 4, 25):
    assert sp.solve(lop.jit(lop.matrix(A)), y, 5, max_iters=k).iterations <= k
'''),
 dict(id="mp-limit-inclusive", property="P05", edits=[("pursuit/mp.py", "b = state.iterations < max_iters", "b = state.iterations <= max_iters")], nth={"b = state.iterations < max_iters": 1},
      needs="matching pursuit on a matrix that does not converge within the limit", breaks="one pass too many",
      demo=PRE + '''
from cr.sparse.pursuit import mp
A = unit(rvec(20, 60)); y = rvec(20)
for f, Phi in ((mp.solve, lop.matrix(A)), (mp.matrix_solve, A)):
    assert f(Phi, y, max_iters=7, res_norm_rtol=1e-12).iterations == 7
'''),
 dict(id="fista-negative-count", property="P05", edits=[("sls/ista.py", "return jnp.logical_and(state.iterations < max_iters, not_converged)", "return jnp.logical_or(jnp.logical_and(state.iterations < max_iters, not_converged), state.x_change_norm > 1e9)")],
      needs="a limit of zero iterations", breaks="ISTA performs an iteration although none is allowed",
      demo=PRE + '''
from cr.sparse import sls
A = lop.matrix(rvec(6, 9) / 8); b = rvec(6)
for k in (0, 1, 3):
    assert sls.ista(A, b, jnp.zeros(9), 0.5, max_iters=k).iterations <= k
'''),
 dict(id="spg-wrong-limit", property="P05", edits=[("opt/spg.py", "a = state.iterations < options.max_iters", "a = state.iterations < options.max_f_calls")],
      needs="an iteration limit smaller than the limit on function calls", breaks="SPG ignores its iteration limit",
      demo=PRE + '''
from cr.sparse import opt
from cr.sparse._src.opt import spg
f = opt.smooth_quad_matrix(jnp.diag(jnp.logspace(0, 3, 12)), rvec(12))
for k in (1, 3, 5):
    s = spg.solve_from(f, lambda x: x, jnp.ones(12), spg.SPGOptions(max_iters=k))
    assert s.iterations <= k
'''),
 dict(id="biht-stuck-count", property="P05", edits=[("cs/cs1bit/biht.py", "iterations=state.iterations+1)", "iterations=jnp.where(n_mismatched_bits < state.n_mismatched_bits, state.iterations + 1, state.iterations + (state.iterations > 0)))")],
      needs="a first iteration that does not reduce the number of mismatched bits", breaks="the iteration counter does not advance, so the loop need not stop",
      demo=PRE + '''
from cr.sparse.cs import cs1bit
import signal
signal.alarm(60)
for s in range(4):
    A = rvec(30, 10); y = jnp.sign(rvec(30))
    st = cs1bit.biht(A, y, 2, 0.0 if s else 1.0, max_iters=20)
    assert 0 < st.iterations <= 20
'''),
 # ---------------------------------------------------------------- P06
 dict(id="spgl1-safe-count", property="P06", edits=[("cvx/spgl1.py", "n_times = state.n_times + lsearch.n_iters + 1", "n_times = state.n_times + lsearch.n_safe + 1")], nth={"n_times = state.n_times + lsearch.n_iters + 1": 0},
      needs="a LASSO run whose line search backtracks", breaks="backtracking steps are not counted as forward applications",
      demo=PRE + '''
from cr.sparse.cvx import spgl1
cnt = [0, 0]
def hit(k):
    cnt[k] += 1
A0 = rvec(20, 50)
def times(x):
    jax.debug.callback(hit, 0); return A0 @ x
def trans(y):
    jax.debug.callback(hit, 1); return A0.T @ y
A = lop.Operator(times=times, trans=trans, shape=(20, 50))
for tau in (0.5, 5.0, 50.0):
    cnt[:] = [0, 0]
    s = spgl1.solve_lasso(A, rvec(20), tau)
    jax.effects_barrier()
    assert (int(s.n_times), int(s.n_trans)) == tuple(cnt), (s.n_times, s.n_trans, cnt)
'''),
 dict(id="spg-linesearch-count", property="P06", edits=[("opt/spg.py", "f_calls=state.f_calls+lsearch.f_calls", "f_calls=state.f_calls+jnp.minimum(lsearch.f_calls, 2)")],
      needs="a line search that backtracks more than once", breaks="function evaluations of long line searches are not counted",
      demo=PRE + '''
from cr.sparse._src.opt import spg
cnt = [0]
def hit(): cnt[0] += 1
P = jnp.diag(jnp.logspace(0, 4, 12)); q = rvec(12)
def raw(x):
    jax.debug.callback(hit)
    return 0.5 * x @ (P @ x) + q @ x + jnp.sum(x ** 4)
g = lambda x: P @ x + q + 4 * x ** 3
f = opt.smooth.SmoothFunction(raw, g, lambda x: (g(x), raw(x))) if hasattr(opt, "smooth") else opt.SmoothFunction(raw, g, lambda x: (g(x), raw(x)))
for k in range(5):
    cnt[0] = 0
    s = spg.solve_from(f, lambda x: jnp.clip(x, -20, 20), 50 * rvec(12), spg.SPGOptions(memory=1))
    jax.effects_barrier()
    assert int(s.f_calls) == cnt[0], (s.f_calls, cnt)
'''),
 dict(id="lsqr-setup-count", property="P06", edits=[("sls/lsqr.py", "iterations=1, n_times=1, n_trans=1)", "iterations=1, n_times=0, n_trans=1)")],
      needs="any run", breaks="the forward application that forms the initial residual is not counted",
      demo=PRE + '''
from cr.sparse import sls
cnt = [0, 0]
def hit(k):
    cnt[k] += 1
A0 = rvec(20, 8)
def times(x):
    jax.debug.callback(hit, 0); return A0 @ x
def trans(y):
    jax.debug.callback(hit, 1); return A0.T @ y
A = lop.Operator(times=times, trans=trans, shape=(20, 8))
s = sls.lsqr(A, rvec(20), jnp.zeros(8), max_iters=5)
jax.effects_barrier()
assert (int(s.n_times), int(s.n_trans)) == tuple(cnt), (s.n_times, s.n_trans, cnt)
'''),
]
