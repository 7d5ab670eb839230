PRE = '''
import numpy as np, jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from cr.sparse import lop
rng = np.random.RandomState(3)
def cvec(*s): return jnp.asarray(rng.randn(*s) + 1j * rng.randn(*s))
def rvec(*s): return jnp.asarray(rng.randn(*s))
def adj(A, x, y):
    a, b = jnp.vdot(y, A.times(x)), jnp.vdot(A.trans(y), x)
    assert abs(a - b) < 1e-8 * (1 + abs(a)), (a, b)
'''
BUGS = [
 dict(id="fir-even-length", property="P01", edits=[("lop/filters.py", "trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]", "trans1d = lambda x : jnp.convolve(x, h_conj, 'same')")],
      needs="an FIR filter with an even number of taps", breaks="the adjoint of fir_filter is shifted by one sample for even-length filters",
      demo=PRE + '''
for L in (3, 4, 5, 6):
    adj(lop.fir_filter(11, rvec(L)), rvec(11), rvec(11))
'''),
 dict(id="diag-noconj", property="P01", edits=[("lop/basic.py", "trans = lambda x: _hermitian(d) * x", "trans = lambda x: d * x")],
      needs="a complex diagonal", breaks="the adjoint of a complex diagonal operator is not conjugated",
      demo=PRE + '''
adj(lop.diagonal(cvec(6)), cvec(6), cvec(6))
'''),
 dict(id="heaviside-weight-order", property="P01", edits=[("lop/basic.py", "return jnp.insert(ym - y[:-1], 0, ym) * wi", "return jnp.insert(ym - y[:-1], 0, ym) * wi[0]")],
      needs="a normalized heaviside operator of size two or more whose adjoint is applied", breaks="adjoint weights of the normalized heaviside operator",
      demo=PRE + '''
adj(lop.heaviside(7), rvec(7), rvec(7))
adj(lop.heaviside(7, normalized=False), rvec(7), rvec(7))
'''),
 dict(id="conv-offset-adjoint", property="P01", edits=[("lop/conv.py", "    adjoint = m  - 1 - offset", "    adjoint = offset if 2 * offset == m - 1 else m - 1 - min(offset, m // 2)")],
      needs="an offset beyond the middle of the filter", breaks="adjoint of convolve with a large offset picks the wrong window",
      demo=PRE + '''
for off in range(5):
    adj(lop.convolve(9, rvec(5), off), rvec(9), rvec(9))
'''),
 dict(id="partial-perm-inverse", property="P02", edits=[("lop/lop.py", "out = out.at[perm].set(y)", "out = out.at[:].set(y[perm])")],
      needs="a permutation that is not its own inverse", breaks="adjoint of partial_op permutes in the wrong direction",
      demo=PRE + '''
A = lop.matrix(rvec(6, 5))
for perm in ([1, 0, 3, 2, 4], [1, 2, 3, 4, 0]):
    P = lop.partial_op(A, jnp.array([0, 3, 5]), jnp.array(perm))
    adj(P, rvec(5), rvec(3))
'''),
 dict(id="scale-conj-dropped", property="P02", edits=[("lop/lop.py", "trans = lambda x : alpha_c * A.trans(x)", "trans = lambda x : alpha * A.trans(x)")],
      needs="a complex scale factor", breaks="the adjoint of a scaled operator uses the factor itself",
      demo=PRE + '''
A = lop.matrix(cvec(4, 5))
adj(lop.scale(A, 2.0), cvec(5), cvec(4))
adj(lop.scale(A, 2.0 + 1j), cvec(5), cvec(4))
'''),
 dict(id="compose-real-or", property="P03", edits=[("lop/lop.py", "real = A.real and B.real", "real = A.real or B.real")], nth={"real = A.real and B.real": 2},
      needs="composition of a real and a complex operator followed by a transpose or a realness test", breaks="a complex composition is declared real",
      demo=PRE + '''
C = lop.compose(lop.matrix(rvec(4, 4)), lop.fourier_basis(4))
assert not C.real
x = cvec(4)
M = lop.to_complex_matrix(C)
assert np.allclose(lop.transpose(C).times(x), M.T @ x)
'''),
 dict(id="power-trans-offbyone", property="P02", edits=[("lop/lop.py", "trans = lambda x : apply_n(A.trans, p, x)", "trans = lambda x : apply_n(A.trans, max(p - 1, 1), A.trans(x) if p > 2 else x) if p != 2 else A.trans(x)")],
      needs="a square power: exponent two, adjoint direction", breaks="the adjoint of A**2 applies A^H once",
      demo=PRE + '''
A = lop.matrix(rvec(4, 4))
for p in (1, 2, 3):
    adj(lop.power(A, p), rvec(4), rvec(4))
'''),
 dict(id="identity-rect-shape", property="P03", edits=[("lop/identity.py", "trans = lambda x:  x[:in_dim]", "trans = lambda x: x[:max(in_dim, out_dim - in_dim)]")],
      needs="an identity embedding into a space more than twice as large", breaks="adjoint of a rectangular identity returns too many entries",
      demo=PRE + '''
for a, b in ((3, 4), (3, 5), (3, 9)):
    op = lop.identity(a, b)
    assert op.trans(rvec(b)).shape == (a,)
'''),
 dict(id="blockdiag-slices", property="P02", edits=[("lop/block_diag.py", "        out_start += m", "        out_start += n if num_operators == 2 else m"), ("lop/block_diag.py", "    for op in operators:\n        m, n = op.shape", "    num_operators = len(operators)\n    for op in operators:\n        m, n = op.shape")],
      needs="exactly two rectangular blocks", breaks="the adjoint of a two-block diagonal reads the wrong output slice",
      demo=PRE + '''
A, B = lop.matrix(rvec(3, 5)), lop.matrix(rvec(4, 2))
adj(lop.block_diag([A, B, A]), rvec(12), rvec(10))
adj(lop.block_diag([A, B]), rvec(7), rvec(7))
'''),
]
